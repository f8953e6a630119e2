"""Backward propagation through element-wise merging layers."""
from sa.scen import *
from props.p10 import check_backward, to_backward

EXPLANATION = (
    "Each Backward merge layer is interpreted on abstract inputs; the bounds returned for each input, evaluated at that input's ghost "
    "activation, must enclose the merged value for every value of the other inputs within their bounds (rule sound)."
)
H = "props.p12"

BIN = ["Add", "Subtract", "Maximum", "Minimum", "Multiply", "Average"]


def obligations(tier):
    out = []
    shapes = [(2,)] + ([(1, 2)] if tier == "quick" else [(2, 2), (3,), (1, 2, 2)])
    for n in BIN:
        for mode in MODES:
            for sh in shapes:
                out.append((f"{n}/{mode}/{len(sh)}d{sh[0]}", H, "merge", n, mode, sh, 2))
    for mode in MODES:
        out.append((f"Average3/{mode}", H, "merge", "Average", mode, (2,), 3))
        out.append((f"Average4/{mode}", H, "merge", "Average", mode, (1,), 4))
        out.append((f"Concatenate/{mode}", H, "merge", "Concatenate", mode, (2,), 2))
    return out


def keras_merge(sc, name, shapes, **kw):
    lay = sc.call(sc.layers.d[name], **kw)
    ins = [sc.call(sc.keras.d["Input"], s) for s in shapes]
    sc.call(lay, ins)
    return lay


def merge(rec, name, mode, shape, n):
    sc = Scene(rec, 1 if n > 2 else 2, 1)
    shapes = [shape] * n
    if name == "Concatenate":
        shapes = [(2,), (3,)]
    lay = keras_merge(sc, name, shapes)
    ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
    target = sc.call(lay, ys)
    ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    if name == "Multiply" and mode == IBP:
        # signs of the lower bounds matter: the activation is described from its lower bound
        for i, d in enumerate(ds):
            low = ten.raw(jordan_tensor((1,) + shape, f"L{i}"))
            d["l_c"] = tens(low)
            ys[i] = d["y"] = tens(arr(low.shape, lambda j: low[j] + fresh(f"s{i}{list(j)}", "0+")))
            d["u_c"] = tens(arr(low.shape, lambda j: ten.raw(d["y"])[j] + fresh(f"t{i}{list(j)}", "0+")))
        target = sc.call(lay, ys)
    x = sc.x_box()
    ins = [t for d in ds for t in sc.pack(d, mode, x)]
    f = sc.get("decomon.layers.convert", "to_decomon")
    dl = sc.call(f, lay, sc.nin, perturbation_domain=sc.box(), ibp=mode != AFFINE, affine=mode != IBP)
    bl = to_backward(sc, dl, mode)
    cons = f"{bl.cls.module.name}:{bl.cls.name}"
    ins = [t for d in ds for t in sc.pack(d, mode, x)]
    K = sc.mod("keras.ops")
    sc.contract("decomon.utils:subtract", lambda sc, a, y: sc.call(K.d["subtract"], y[0], y[1]))
    sc.contract("decomon.utils:minus", lambda sc, a, y: sc.call(K.d["negative"], y[0]))
    sc.contract("decomon.utils:relu_", lambda sc, a, y: sc.call(K.d["relu"], y[0]))
    outs = sc.call(bl, ins)
    if not isinstance(outs, (list, tuple)) or len(outs) != len(ys):
        rec.bad("tensor-count", cons, f"one list of bounds per input expected, got {outs}")
        return
    for i, (o, y) in enumerate(zip(outs, ys)):
        check_backward(sc, o, y, target, cons, f"{name} input {i}", exact=False)
