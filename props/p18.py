"""Freezing, unfreezing and resetting the parameters of a converted model."""
from sa.scen import *
from props.survey import *

EXPLANATION = (
    "A network is converted and the variables of the converted model are split in two: those holding the parameters of the network (same "
    "contents as a variable of the network, whose parameters are unknowns) and those tuning the relaxations. freeze_weights, unfreeze_weights, "
    "freeze_alpha, unfreeze_alpha and reset_finetuning are interpreted along a sequence containing every word of length three: after each call the "
    "trainable variables of the model must be those trainable at first, less those of the kinds currently frozen (rules frozen, left-alone, "
    "restored). reset_finetuning, called on parameters having arbitrary values, must give back their values at conversion, frozen or not, and "
    "leave the parameters of the network as they are (rule reset). Called on one layer only, they act on its variables only (rule local)."
)
H = "props.p18"
ASSUMPTIONS = [
    "Keras layers, models and variables behave as their summaries under sa/stubs: the trainable variables of a layer are its variables marked trainable",
    "networks, conversion methods and words of calls are enumerated; parameter values are unconstrained",
]
LIMIT = {"quick": 120, "thorough": 600}
CALLS = ("freeze_weights", "unfreeze_weights", "freeze_alpha", "unfreeze_alpha")
CONS = "decomon.models.models:DecomonModel."
# every word of length 3 over the four calls, and of length 2 over the four calls and the reset
WALK3 = None


def debruijn(n, k):
    a, seq = [0] * n * k, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def obligations(tier):
    deep = tier == "deep"
    out = []
    chains = ("relu", "two-activations", "bn", "conv", "dense", "twice", "nested") if not deep else tuple(CHAINS) + ("nested", "outputs")
    for kind in chains:
        for m in METHODS:
            for ft in (True, False):
                for shared in (True, False):
                    if not shared and (m == "crown" or (not deep and kind not in ("two-activations", "bn"))):
                        continue
                    if not ft and not deep and kind not in ("two-activations", "bn", "conv"):
                        continue
                    for user in (False, True) if kind in ("two-activations", "bn") or deep else (False,):
                        tag = f"{'finetune' if ft else 'plain'}/{'shared' if shared else 'copied'}{'/user-frozen' if user else ''}"
                        out.append((f"{kind}/{m}/{tag}", H, "model", kind, m, ft, shared, user, 4 if deep else 3))
    for kind in ("branches", "concat"):
        for m in FORWARD:
            for ft in (True, False):
                out.append((f"{kind}/{m}/{'finetune' if ft else 'plain'}", H, "model", kind, m, ft, True, False, 3))
    for kind in ("two-activations", "bn"):
        for m in METHODS:
            out.append((f"{kind}/{m}/local", H, "local", kind, m))
    return out


def initial(sc):
    """variables of the library hold the value their initializer says"""

    def hook(layer, shape, initializer, trainable, constraint, name):
        if not layer.cls.module.name.startswith("decomon."):
            return None
        i = initializer if isinstance(initializer, str) else getattr(getattr(initializer, "cls", None), "name", "").lower()
        if i in ("ones", "zeros"):
            return tens(arr(shape, lambda _: alg.const(1 if i == "ones" else 0)))
        return None

    sc.I.state.var_hook = hook


def equal(a, b):
    return a.shape == b.shape and all(alg.is_zero(a[i] - b[i]) is True for i in np.ndindex(a.shape))


def setup(rec, kind, method, ft, shared, user):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    if user:
        sc.I.setattr(net.l["d1"], "trainable", False)
    initial(sc)
    sv = Survey(sc)
    d = sv.clone(net, domain_of(sc, "box"), method=method, finetune=ft, shared=shared)
    sc.I.hooks.remove(sv.hook)
    theirs = list(sc.attr(net.model, "weights"))
    ours = list(sc.attr(d, "weights"))
    network, tuning = [], []
    for v in ours:
        (network if any(v is w or equal(v.a, w.a) for w in theirs) else tuning).append(v)
    return sc, net, d, network, tuning


def among(v, vs):
    return any(v is w for w in vs)


def owner(v):
    o = (v.extra or {}).get("owner_layer")
    return f"{o.cls.module.name}:{o.cls.name}" if isinstance(o, Obj) else CONS[:-1]


def trainable(sc, d):
    return list(sc.attr(d, "trainable_weights"))


def model(rec, kind, method, ft, shared, user, n):
    sc, net, d, network, tuning = setup(rec, kind, method, ft, shared, user)
    what = f"{kind} {method}{' finetune' if ft else ''}{'' if shared else ' shared=False'}{' (first layer frozen by the user)' if user else ''}"
    if tuning and not ft:
        rec.undecided("split", CONS[:-1], f"{what}: variables {[v.name for v in tuning]} are not those of the network")
        return
    if not network:
        rec.undecided("split", CONS[:-1], f"{what}: no variable of the network found in the converted model")
        return
    start = trainable(sc, d)
    rec.ok("split", CONS[:-1])
    frozen = {"w": False, "a": False}
    state = {"w": "weights of the network", "a": "fine-tuning parameters"}
    done = []
    for k in debruijn(n, 4):
        c = CALLS[k]
        sc.call(sc.attr(d, c))
        done.append(c)
        frozen["w" if c.endswith("weights") else "a"] = c.startswith("freeze")
        now = trainable(sc, d)
        last = " > ".join(done[-n - 1:])
        for v, key in [(v, "w") for v in network] + [(v, "a") for v in tuning]:
            exp = among(v, start) and not frozen[key]
            got = among(v, now)
            if got == exp:
                rec.ok("frozen" if frozen[key] else "restored", owner(v))
            elif got and frozen[key]:
                rec.bad("frozen", owner(v), f"{what}: variable {v.name} is still trainable whereas the {state[key]} are frozen ({last})")
            elif got:
                rec.bad("restored", owner(v), f"{what}: variable {v.name}, not trainable at first, has become trainable ({last})")
            elif (key == "w") == c.endswith("weights"):
                rec.bad("restored", owner(v), f"{what}: variable {v.name} is not trainable after unfreezing the {state[key]} ({last})")
            else:
                rec.bad("left-alone", owner(v), f"{what}: variable {v.name} is no longer trainable whereas the {state[key]} are not frozen ({last})")
    reset(rec, sc, d, network, tuning, what)


def reset(rec, sc, d, network, tuning, what):
    held = [v.a.copy() for v in network]
    first = [v.a.copy() for v in tuning]
    for v in tuning:
        if any(not x.is_const() for x in v.a.flat):
            rec.undecided("reset", owner(v), f"{what}: unknown initial value of {v.name}")
            return
    for prior in ((), ("freeze_alpha",), ("freeze_weights",), ("unfreeze_alpha", "unfreeze_weights")):
        for c in prior:
            sc.call(sc.attr(d, c))
        for v in tuning:
            v.assign(tens(arr(v.a.shape, lambda i: fresh("tuned", "0+"))))
        before = trainable(sc, d)
        sc.call(sc.attr(d, "reset_finetuning"))
        after = trainable(sc, d)
        rec.check(len(before) == len(after) and all(among(v, after) for v in before), "reset", CONS + "reset_finetuning", f"{what}: reset_finetuning changes what is trainable")
        for v, a in zip(tuning, first):
            rec.check(equal(v.a, a), "reset", owner(v), f"{what}: reset_finetuning does not give its initial value back to {v.name}{' after ' + ', '.join(prior) if prior else ''}")
        for v, a in zip(network, held):
            rec.check(equal(v.a, a), "reset", owner(v), f"{what}: reset_finetuning modifies {v.name}, a parameter of the network")
    if not tuning:
        rec.ok("reset", CONS + "reset_finetuning")


def local(rec, kind, method):
    """on one layer of the converted model"""
    sc, net, d, network, tuning = setup(rec, kind, method, True, True, False)
    ls = [l for l in sc.attr(d, "layers") if has(sc, l, "freeze_weights") is not None]
    start = trainable(sc, d)
    for l in ls:
        own = list(sc.attr(l, "weights"))
        for f, u, vs in (("freeze_weights", "unfreeze_weights", network), ("freeze_alpha", "unfreeze_alpha", tuning)):
            what = f"{kind} {method}: layer {l.d.get('name')}"
            sc.call(sc.attr(l, f))
            now = trainable(sc, d)
            for v in start:
                exp = not (among(v, own) and among(v, vs))
                rec.check(among(v, now) == exp, "local", qual_of(l), f"{what}: {f} {'freezes' if exp else 'does not freeze'} {v.name}")
            sc.call(sc.attr(l, u))
            now = trainable(sc, d)
            rec.check(len(now) == len(start) and all(among(v, now) for v in start), "local", qual_of(l), f"{what}: {u} does not restore what is trainable")
