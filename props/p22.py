"""The network given by the user is left untouched by its conversion."""
from sa.scen import *
from props.survey import *

EXPLANATION = (
    "Effect analysis of the conversion on the objects of the user. clone() is interpreted on networks of every supported shape, with every method and "
    "with options; the state of each layer of the network (and of nested models and embedded activation layers) before and after are compared: name "
    "(rule name), activation and configuration (rule config), variables: identity, values, trainable flags (rule weights), and the outputs of the network "
    "on an arbitrary point (rule outputs). Conversions that are refused are compared as well."
)
H = "props.p22"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "networks and combinations of options are enumerated; weights and points are unconstrained",
    "inbound nodes added to the user's layers are internal to Keras and not compared",
]
LIMIT = {"quick": 120, "thorough": 600}
EXTRA = ("softmax-last", "dense-softmax", "sequential-softmax", "layer-activation") + NESTED


def obligations(tier):
    out = []
    kinds = CHAINS + GRAPHS + EXTRA
    for k, kind in enumerate(kinds):
        for m in METHODS:
            if tier != "deep" and kind in ("permute-3", "conv-first", "flatten-first", "bn-axis1", "dense-3d") and METHODS.index(m) % 3 != k % 3:
                continue
            out.append((f"{kind}/{m}", H, "untouched", kind, m, {}))
    for kind in MERGED:
        for m in FORWARD:
            out.append((f"{kind}/{m}", H, "untouched", kind, m, {}))
    opts = {"finetune": {"finetune": True}, "copied": {"shared": False}, "final": {"final_ibp": True, "final_affine": True}, "slope": {"slope": "one-lb"}}
    for kind in ("relu", "bn", "conv", "nested", "layer-activation", "sequential-softmax") + (("two-activations", "twice", "outputs", "nested-last") if tier == "deep" else ()):
        for m in METHODS:
            for o, kw in opts.items():
                out.append((f"{kind}/{m}/{o}", H, "untouched", kind, m, kw))
    return out


def norm(sc, v, depth=0):
    if isinstance(v, (str, int, float, bool, type(None))):
        return v
    if isinstance(v, (list, tuple)):
        return [norm(sc, x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(sc, x) for k, x in v.items()}
    return ("object", id(v))


def layers_of(sc, net):
    seen = {}
    work = list(net.l.values()) + list(net.submodels) + [net.model]
    while work:
        l = work.pop()
        if id(l) in seen:
            continue
        seen[id(l)] = l
        if "_layers" in l.d:
            work += [x for x in l.d["_layers"] if isinstance(x, Obj)]
        if is_a(l, "Model"):
            work += list(sc.attr(l, "layers"))
    return list(seen.values())


def snapshot(sc, net):
    state = {}
    for l in layers_of(sc, net):
        s = {"object": l, "name": sc.attr(l, "name"), "trainable": sc.attr(l, "trainable")}
        s["activation"] = l.d.get("activation")
        if not is_a(l, "Model"):
            s["config"] = norm(sc, sc.call(sc.attr(l, "get_config")))
        else:
            s["layers"] = list(sc.attr(l, "layers"))
        ws = list(sc.attr(l, "weights"))
        s["weights"] = [(w, w.a.copy(), bool(w.extra.get("trainable", True)), sc.attr(w, "name")) for w in ws]
        roles = {}
        for r in ("kernel", "bias", "gamma", "beta", "moving_mean", "moving_variance"):
            roles[r] = has(sc, l, r)
        s["roles"] = roles
        state[id(l)] = s
    return state


def untouched(rec, kind, method, kw):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    sv = Survey(sc)
    before = snapshot(sc, net)
    point = tens(sc.X)
    y0 = sc.call(net.model, point)
    cons = "decomon.models.convert:clone"
    what = f"{kind} {method}"
    refused = ""
    try:
        sv.clone(net, sc.box(), method=method, **kw)
    except AbsRaise as e:
        if e.typename() not in ("NotImplementedError", "KeyError", "ValueError", "AttributeError") or kind not in GRAPHS:
            raise
        refused = " (refused)"
    what += refused
    after = snapshot(sc, net)
    for i, a in before.items():
        b = after.get(i)
        if b is None:
            rec.bad("config", cons, f"{what}: layer {a['name']} left the network")
            continue
        rec.check(a["name"] == b["name"], "name", cons, f"{what}: layer {a['name']} was renamed {b['name']}")
        rec.check(a["activation"] is b["activation"] or a["activation"] == b["activation"], "config", cons, f"{what}: the activation of {a['name']} was replaced")
        ca, cb = dict(a.get("config") or {}), dict(b.get("config") or {})
        ca.pop("name", None), cb.pop("name", None)
        rec.check(_noname(ca) == _noname(cb), "config", cons, f"{what}: the configuration of {a['name']} was {ca} and is {cb}")
        if "layers" in a:
            rec.check(len(a["layers"]) == len(b["layers"]) and all(x is y for x, y in zip(a["layers"], b["layers"])), "config", cons, f"{what}: layers of {a['name']} changed")
        rec.check(a["trainable"] == b["trainable"], "weights", cons, f"{what}: {a['name']}.trainable was {a['trainable']}")
        ok = len(a["weights"]) == len(b["weights"])
        rec.check(ok, "weights", cons, f"{what}: {a['name']} had {len(a['weights'])} variables and has {len(b['weights'])}")
        for (w, v, t, n), (w2, v2, t2, n2) in zip(a["weights"], b["weights"]) if ok else ():
            rec.check(w is w2, "weights", cons, f"{what}: variable {a['name']}.{n} was replaced")
            same = v.shape == v2.shape and all(alg.is_zero(v[i] - v2[i]) is True for i in np.ndindex(v.shape))
            rec.check(same, "weights", cons, f"{what}: variable {a['name']}.{n} was assigned another value")
            rec.check(t == t2, "weights", cons, f"{what}: {a['name']}.{n}.trainable was {t}")
        for r in a["roles"]:
            rec.check(a["roles"][r] is b["roles"][r], "weights", cons, f"{what}: {a['name']}.{r} was replaced")
    y1 = sc.call(net.model, point)
    y0, y1 = [list(y) if isinstance(y, (list, tuple)) else [y] for y in (y0, y1)]
    rec.check(len(y0) == len(y1), "outputs", cons, f"{what}: {len(y0)} outputs before, {len(y1)} after")
    for a, b in zip(y0, y1):
        A, B = ten.raw(a), ten.raw(b)
        if A.shape != B.shape:
            rec.bad("outputs", cons, f"{what}: shape of the outputs was {A.shape} and is {B.shape}")
            continue
        rec.zero(tens(A - B), "outputs", cons, what)


def _noname(c):
    if isinstance(c, dict):
        return {k: _noname(v) for k, v in c.items() if k != "name"}
    if isinstance(c, list):
        return [_noname(v) for v in c]
    return c
