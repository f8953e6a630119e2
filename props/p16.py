"""Options of the conversion held by the layers of the converted model."""
from sa.scen import *
from props.survey import *
from props.p01 import layer_cases, keras_layer
from props.p15 import run_single
from sa.interp import Env

EXPLANATION = (
    "clone() is interpreted for combinations of slope, fine-tuning, sharing and method, on a new network or one already converted with other options, then every layer run by the converted model is inspected: "
    "its mode, slope, fine-tuning, sharing and difference-of-convex flags must be those of the conversion (rule option), the relaxation "
    "of activations must be called with that slope and mode, and with the parameters created for fine-tuning if and only if it was requested (rule "
    "relaxation), and the model must report the options (rule reported)."
)
H = "props.p16"
LIMIT = {"quick": 120, "thorough": 600}
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "networks and combinations of options are enumerated",
]
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")
FT = {"none": {}, "both": {"finetune": True}, "forward": {"finetune_forward": True}, "backward": {"finetune_backward": True}}
MODE_OF = {"crown": IBP, "crown-forward-ibp": IBP, "crown-forward-affine": AFFINE, "crown-forward-hybrid": HYBRID,
           "forward-ibp": IBP, "forward-affine": AFFINE, "forward-hybrid": HYBRID}


def obligations(tier):
    out = []
    kinds = ("relu", "two-activations", "nested", "activation-twice", "outputs") if tier != "deep" else CHAINS + ("nested", "nested-last", "outputs", "output-inside")
    n = 0
    for kind in kinds:
        for m in METHODS:
            for ft in FT:
                for shared in (True, False):
                    n += 1
                    if tier != "deep" and kind not in ("relu", "two-activations") and (n % 3):
                        continue
                    out.append((f"{kind}/{m}/{ft}/{'shared' if shared else 'copied'}", H, "options", kind, m, SLOPES[n % 5], ft, shared))
    for m in METHODS:
        for s in SLOPES:
            out.append((f"relu/{m}/{s}", H, "options", "relu", m, s, "none", True))
            out.append((f"first-activation/{m}/{s}", H, "options", "first-activation", m, s, "both", True))
    for i, m in enumerate(METHODS):
        for kind in ("relu", "two-activations") if tier != "deep" else ("relu", "two-activations", "nested"):
            for j, ft in enumerate(FT):
                s, t = SLOPES[(i + j) % 5], SLOPES[(i + j + 2) % 5]
                first = (m if j % 2 else METHODS[(i + 2) % 7], "box", {"slope": t, "shared": bool(j % 2), **list(FT.values())[3 - j]})
                out.append((f"{kind}/{m}/{ft}/again", H, "options", kind, m, s, ft, not j % 2, first))
    for kind in ("branches", "skip"):
        for m in FORWARD:
            for ft in ("none", "forward"):
                out.append((f"{kind}/{m}/{ft}", H, "options", kind, m, "zero-lb", ft, False))
    for m in METHODS:
        out.append((f"softplus/{m}", H, "options", "softplus", m, "one-lb", "both", True))
        out.append((f"softplus/{m}/none", H, "options", "softplus", m, "same-slope", "none", True))
    return out


def value_of(sc, o, n):
    v = has(sc, o, n)
    try:
        return sc.attr(v, "value")
    except Exception:
        return v


def options(rec, kind, method, slope, ft, shared, before=None):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    earlier(sc, net, before)
    sv = Survey(sc)
    hulls = []

    def hook(f, args, kwargs):
        if f.qual in ("decomon.utils:get_linear_hull_relu", "decomon.utils:get_linear_softplus_hull") and not sc.symbolic and sv.stack:
            env = Env(f.env, f.module, f, {})
            sc.I.bind_args(f, env, args, kwargs)
            hulls.append((f, env.vars.get("slope"), (env.vars.get("kwargs") or {}).get("finetune"), sv.stack[-1]))
        return MISSING

    sc.I.hooks.insert(0, hook)
    kw = FT[ft]
    d = sv.clone(net, sc.box(), method=method, slope=slope, shared=shared, **kw)
    sc.lin = {}
    ff = ft in ("both", "forward")
    fb = ft in ("both", "backward")
    mode = MODE_OF[method]
    for l in sv.layers:
        back = is_a(l, "BackwardLayer")
        forward = is_a(l, "DecomonLayer")
        if not back and not forward:
            continue
        c = qual_of(l)
        w = f"{kind} {method}: {l.d.get('name', '')}"

        def opt(name, want):
            got = value_of(sc, l, name)
            rec.check(got == want, "option", c, f"{w}.{name} is {got} instead of {want}")

        opt("mode", mode)
        opt("dc_decomp", False)
        if forward:
            opt("shared", shared)
            opt("finetune", ff)
        if is_a(l, "DecomonActivation"):
            opt("slope", slope)
        if is_a(l, "BackwardActivation"):
            opt("slope", slope)
            opt("finetune", fb)
            act = l.d.get("activation_name")
            if act not in (None, "linear"):
                n = len([v for v in sc.attr(l, "weights")])
                want = 0 if not fb else 1 if act[:4] == "relu" else 2
                rec.check(n == want, "relaxation", c, f"{w}: {n} parameters instead of {want}")
        if is_a(l, "DecomonActivation"):
            act = l.d.get("activation_name")
            if act not in (None, "linear"):
                n = len([v for v in sc.attr(l, "weights")])
                want = 0 if not ff or mode == IBP else 1 if act[:4] == "relu" else 2
                rec.check(n == want, "relaxation", c, f"{w}: {n} parameters instead of {want}")
    for f, s, fine, lay in hulls:
        if not (is_a(lay, "DecomonActivation") or is_a(lay, "BackwardActivation")):
            continue
        c = qual_of(lay)
        try:
            s = sc.attr(s, "value")
        except Exception:
            pass
        rec.check(str(s) == slope, "relaxation", c, f"{kind} {method}: {f.qual} called with slope {s} instead of {slope}")
        own = [v for v in sc.attr(lay, "weights")]
        if fine is None:
            # the forward relaxation of softplus has no parameter to tune
            rec.check(not own or (f.name != "get_linear_hull_relu" and is_a(lay, "DecomonActivation")), "relaxation", c, f"{kind} {method}: the parameters of {lay.d.get('name')} are not given to {f.qual}")
        else:
            given = list(fine) if isinstance(fine, (list, tuple)) else [fine]
            ok = len(given) == len(own) and all(any(g is o for o in own) for g in given)
            rec.check(ok, "relaxation", c, f"{kind} {method}: {f.qual} is given other parameters than those of {lay.d.get('name')}")
    cons = "decomon.models.convert:clone"
    for n, want in (("method", method), ("finetune", ft == "both"), ("shared", shared), ("dc_decomp", False), ("backward_bounds", False),
                    ("ibp", mode != AFFINE), ("affine", mode != IBP)):
        got = value_of(sc, d, n)
        rec.check(got == want, "reported", cons, f"{kind} {method}: model.{n} is {got} instead of {want}")
    want = [l for l in sv.layers if is_a(l, "BackwardActivation" if method.startswith("crown") else "DecomonActivation")]
    if not want and kind != "dense":
        rec.undecided("option", cons, f"{kind} {method}: no activation layer run")
