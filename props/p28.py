"""Weights a converted layer computes with."""
from sa.scen import *
from props.survey import *
from props.p01 import layer_cases, keras_layer, decomon_of
from props.p10 import to_backward, check_backward

EXPLANATION = (
    "Def-use of weights through the conversion. A layer, or a network, is converted with symbolic weights; the variables of the user's layers are "
    "then given fresh symbolic values and the converted layers are run. Layers alone: the result must be exact for the new weights when sharing was "
    "requested, for those at conversion otherwise (rule role: each weight in its own role). Networks: every converted layer run must depend on "
    "symbols of new weights only when sharing, of old ones only otherwise (rule shared, copied), of a single layer of the user (rule one-layer), and every "
    "weight of the user must be used (rule used)."
)
H = "props.p28"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "layers and networks are enumerated; weights are unconstrained (moving variances positive)",
]
LIMIT = {"quick": 120, "thorough": 600}
KINDS = ("dense", "relu", "sequential", "first-activation", "two-activations", "twice", "dense-act-twice", "bn", "conv", "permute", "bn-axis1")


def obligations(tier):
    out = []
    seen = set()
    for name, shape, spec in layer_cases("std" if tier != "deep" else "deep"):
        if spec[0] not in ("Dense", "Conv2D", "BatchNormalization"):
            continue
        if tier != "deep" and ("wide" in name or "dil" in name or "4d" in name):
            continue
        for shared in (True, False):
            s = "shared" if shared else "copied"
            for mode in MODES if tier == "deep" or spec[0] not in seen else (HYBRID,):
                out.append((f"layer/{name}/{mode}/{s}", H, "forward_layer", name, shape, spec, mode, shared))
                for via in ("keras", "decomon"):
                    if via == "keras" and not shared:
                        continue
                    out.append((f"backward/{name}/{mode}/{via}/{s}", H, "backward_layer", name, shape, spec, mode, via, shared))
        seen.add(spec[0])
    for kind in KINDS + (("permute-3", "bn-conv", "dense-3d", "conv-first") if tier == "deep" else ()):
        for m in METHODS:
            for shared in (True, False):
                out.append((f"{kind}/{m}/{'shared' if shared else 'copied'}", H, "network", kind, m, shared))
    for kind in ("dense", "two-activations", "bn") if tier != "deep" else KINDS:
        for m in METHODS:
            for shared in (True, False):
                if m.startswith("crown") and not shared:
                    continue
                out.append((f"{kind}/{m}/{'shared' if shared else 'copied'}/again", H, "network", kind, m, shared, (m, "box", {"shared": not shared})))
    for kind in ("branches", "skip", "concat", "nested", "nested-last", "outputs", "output-inside") + NESTED + MERGED:
        for m in FORWARD if kind in ("branches", "skip", "concat") + MERGED else METHODS:
            for shared in (True, False):
                out.append((f"{kind}/{m}/{'shared' if shared else 'copied'}", H, "network", kind, m, shared))
    return out


def renew(sc, layers, tag="new"):
    """fresh values for the variables of the user's layers; returns {atom: (layer, role)} before and after"""
    old, new = {}, {}
    for l in layers:
        for k, v in enumerate(list(sc.attr(l, "weights"))):
            name = sc.attr(v, "name")
            for i in np.ndindex(v.a.shape):
                for a in alg.atoms_of(v.a[i]):
                    old[a] = (l, k, name)
            sh = v.a.shape
            pos = str(name).startswith("moving_variance")
            b = arr(sh, lambda i: fresh(f"{tag}{k}{name}{list(i)}", "+") if pos else jordan(f"{tag}{k}{name}{list(i)}"))
            v.a = b
            for i in np.ndindex(sh):
                for a in alg.atoms_of(b[i]):
                    new[a] = (l, k, name)
    return old, new


def forward_layer(rec, name, shape, spec, mode, shared):
    sc = Scene(rec, 2, 1)
    lay = keras_layer(sc, spec, shape)
    y = sc.ghost(shape)
    before = sc.call(lay, y)
    dl = decomon_of(sc, lay, mode, sc.nin, shared=shared)
    renew(sc, [lay])
    target = sc.call(lay, y) if shared else before
    outs = sc.call(dl, sc.pack(sc.bounds(y), mode))
    sc.check_bounds(outs, mode, target, f"{dl.cls.module.name}:{dl.cls.name}", f"{name} {'shared' if shared else 'copied'}", exact=True, rule="role")


def backward_layer(rec, name, shape, spec, mode, via, shared):
    sc = Scene(rec, 2, 1)
    lay = keras_layer(sc, spec, shape)
    y = sc.ghost(shape)
    before = sc.call(lay, y)
    src = lay
    if via == "decomon":
        src = decomon_of(sc, lay, mode, sc.nin, shared=shared)
        sc.call(src, sc.pack(sc.bounds(y), mode))
    kw = {"input_dim": sc.nin} if spec[0] in ("Dense", "Conv2D") else {}
    bl = to_backward(sc, src, mode, **kw)
    sc.call(bl, sc.pack(sc.bounds(y), mode))
    renew(sc, [lay])
    target = sc.call(lay, y) if shared else before
    outs = sc.call(bl, sc.pack(sc.bounds(y), mode))
    check_backward(sc, outs, y, target, f"{bl.cls.module.name}:{bl.cls.name}", f"{name} {via} {'shared' if shared else 'copied'}")


def atoms_in(r, acc):
    if isinstance(r, (list, tuple)):
        for t in r:
            atoms_in(t, acc)
    elif isinstance(r, T):
        a = ten.raw(r)
        for i in np.ndindex(a.shape):
            alg.atoms_of(a[i], acc)
    return acc


def network(rec, kind, method, shared, before=None):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    earlier(sc, net, before)
    sv = Survey(sc)
    user = [l for l in net.l.values() if list(sc.attr(l, "weights"))]
    sv.clone(net, sc.box(), method=method, shared=shared)
    old, new = renew(sc, user)
    used = {}
    sv.havoc = False
    what = f"{kind} {method} {'shared' if shared else 'copied'}"
    for f, args, kwargs in list(sv.calls):
        lay = args[0]
        if not (is_a(lay, "DecomonLayer") or is_a(lay, "BackwardLayer")):
            continue
        acc = atoms_in(sc.I.call(f, list(args), dict(kwargs)), set())
        o, n = acc & set(old), acc & set(new)
        cons = qual_of(lay)
        side = "backward" if is_a(lay, "BackwardLayer") else "forward"
        wrong = o if shared else n
        who = sorted({f"{(old if shared else new)[a][0].d.get('name')}.{(old if shared else new)[a][2]}" for a in wrong})
        rec.check(not wrong, "shared" if shared else "copied", cons, f"{what}: {lay.d.get('name')} depends on the {'values at conversion' if shared else 'current values'} of {', '.join(who)}")
        owners = {id((old.get(a) or new.get(a))[0]) for a in o | n}
        rec.check(len(owners) <= 1, "one-layer", cons, f"{what}: {lay.d.get('name')} mixes weights of several layers of the network")
        for a in o | n:
            l, k, name = old.get(a) or new.get(a)
            used.setdefault(side, set()).add((id(l), k))
    for side in used:
        for l in user:
            if side == "forward" and method == "crown":
                continue
            for k, v in enumerate(list(sc.attr(l, "weights"))):
                rec.check((id(l), k) in used[side], "used", "decomon.models.convert:clone", f"{what}: the {side} pass does not use {l.d.get('name')}.{sc.attr(v, 'name')}")
    if not used:
        rec.undecided("used", "decomon.models.convert:clone", f"{what}: no layer with weights was run")
