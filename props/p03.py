"""Relaxations of the activation functions in the forward propagation."""
from sa.scen import *
from props.hulls import *

EXPLANATION = (
    "Each activation is interpreted on the identity over an abstract interval to read off the lines it uses; a line is accepted when it is "
    "on the right side of the function at the ends of the interval (convex side), touches it (tangent side) or at ends and breakpoints "
    "(piecewise linear). The composition of the lines with affine bounds of the activation's input is then checked, and the constant bounds."
)
H = "props.p03"
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def obligations(tier):
    from props import p05
    out = [("prim/" + o[0], *o[1:]) for o in p05.obligations(tier, only=("sum", "expand_dims", "multiply", "minus", "add", "relu_"))]
    for mode in MODES:
        for s in SLOPES if mode != IBP else SLOPES[:1]:
            out.append((f"relu/{s}/{mode}", H, "act", "relu", mode, s))
            out.append((f"softplus/{s}/{mode}", H, "act", "softplus", mode, s))
            if mode != IBP:
                out.append((f"relu-finetune/{s}/{mode}", H, "relu_finetune", mode, s))
        out.append((f"exponential/{mode}", H, "act", "exponential", mode, None))
        for p in ("exp", "log", "frac_pos"):
            out.append((f"{p}/{mode}", H, "prim", p, mode))
        out.append((f"linear/{mode}", H, "linear", mode))
        out.append((f"softmax/{mode}", H, "softmax", mode))
        for shape, axis in (((1, 2), -1), ((1, 2), 2), ((2, 1), 1), ((2, 1), -2), ((2, 2), 1), ((2, 2), -1)):
            out.append((f"softmax-{shape[0]}x{shape[1]}/axis{axis}/{mode}", H, "softmax", mode, shape, axis))
        out.append((f"softmax-positive/{mode}", H, "positive", "softmax", mode))
    for mode in (IBP, HYBRID):
        for a in ("sigmoid", "tanh", "softsign"):
            out.append((f"{a}/{mode}", H, "sshape", a, mode))
    return out


def fn_of(sc, name):
    return sc.call(sc.get("decomon.layers.activations", "get"), name)


def act(rec, name, mode, slope):
    sc = Scene(rec, 1, 1)
    f = fn_of(sc, name)
    kw = {"slope": slope} if slope else {}
    run = lambda ins: sc.call(f, ins, mode=sc.mode(mode), perturbation_domain=sc.box(), **kw)
    judge(rec, sc, f.qual, f"{name} {slope or ''}", name, run, mode, intervals(name))


def prim(rec, name, mode):
    sc = Scene(rec, 1, 1)
    f = sc.get("decomon.layers.utils", name)
    run = lambda ins: sc.call(f, ins, mode=sc.mode(mode), perturbation_domain=sc.box())
    judge(rec, sc, f.qual, name, name, run, mode, intervals(name))


def relu_finetune(rec, mode, slope):
    sc = Scene(rec, 1, 1)
    f = fn_of(sc, "relu")
    a, b = fresh("ga", "0+"), fresh("gb", "+")
    g = tens(arr((1,), lambda i: a * recip(a + b)))
    run = lambda ins: sc.call(f, ins, mode=sc.mode(mode), perturbation_domain=sc.box(), slope=slope, finetune=g)
    judge(rec, sc, f.qual, f"relu finetune {slope}", "relu", run, mode, intervals("relu"))


def linear(rec, mode):
    sc = Scene(rec, 2, 1)
    y = sc.ghost((2,))
    f = fn_of(sc, "linear")
    outs = sc.call(f, sc.pack(sc.bounds(y), mode), mode=sc.mode(mode), perturbation_domain=sc.box())
    sc.check_bounds(outs, mode, y, f.qual, "linear", exact=True)


def sshape(rec, name, mode):
    sc = Scene(rec, 1, 1)
    f = fn_of(sc, name)
    y = sc.ghost((2,))
    d = sc.bounds(y)
    q = "decomon.utils:get_linear_hull_s_shape"

    def hook(fn, args, kwargs):
        if fn.qual != q:
            return MISSING
        sh = (1, 2)
        return [base_tensor(sh, f"h{i}") for i in range(4)]

    sc.I.hooks.append(hook)
    outs = sc.call(f, sc.pack(d, mode), mode=sc.mode(mode), perturbation_domain=sc.box())
    o = sc.unpack(list(outs), mode)
    t = arr((1, 2), lambda i: FUN[name]["f"](ten.raw(y)[i]))
    rec.nonneg(tens(ten.raw(o["u_c"]) - t), "constant", f.qual, name + " u_c")
    rec.nonneg(tens(t - ten.raw(o["l_c"])), "constant", f.qual, name + " l_c")


def softmax(rec, mode, shape=(2,), axis=None):
    from props.prims import install, fullinputs_contract, K
    sc = Scene(rec, 1, 1)
    f = fn_of(sc, "softmax")
    y = sc.ghost(shape)
    install(sc, "exp", "sum", "frac_pos", "expand_dims", "multiply", "minus")
    fullinputs_contract(sc)
    kw = {} if axis is None else {"axis": axis}
    outs = sc.call(f, sc.pack(sc.bounds(y), mode), mode=sc.mode(mode), perturbation_domain=sc.box(), **kw)
    e = arr((1,) + shape, lambda i: apply_fn("exp", ten.raw(y)[i]))
    t = tens(e * np.vectorize(recip, otypes=[object])(e.sum(axis=-1 if axis is None else axis, keepdims=True)))
    sc.check_bounds(outs, mode, t, f.qual, "softmax")


class Seen(Exception):
    """the operand of interest was reached"""


def positive(rec, name, mode):
    """1/x and log are only bounded for x > 0: the constant bounds they work with must not reach the negative values"""
    from props.prims import install
    from sa.interp import Env
    sc = Scene(rec, 1, 1)
    f = fn_of(sc, name)
    y = sc.ghost((2,))
    install(sc, "expand_dims", "multiply", "minus")
    busy, n = [], []
    qs = ("decomon.layers.utils:frac_pos", "decomon.layers.utils:log")
    full = "decomon.core:InputsOutputsSpec.get_fullinputs_from_inputsformode"

    def hook(fn, args, kwargs):
        if fn.qual in qs and not busy:
            busy.append(fn.qual)
            try:
                return sc.I.call(fn, args, kwargs)
            finally:
                busy.pop()
        if fn.qual == full and "full" not in busy:
            env = Env(fn.env, fn.module, fn, {})
            sc.I.bind_args(fn, env, args, kwargs)
            m = str(sc.attr(sc.attr(env.vars["self"], "mode"), "value"))
            kw = dict(env.vars)
            if m == HYBRID and "tight" in kw:
                kw["tight"] = False  # tightening only raises the constant lower bound (P08)
            caller = busy[-1] if busy else None
            busy.append("full")
            try:
                r = list(sc.I.call(fn, [], kw))
            finally:
                busy.pop()
            if caller and isinstance(r[4], T):
                n.append(1)
                rec.nonneg(r[4], "positive", caller, f"{name}: lowest operand")
                raise Seen()
            return r
        return MISSING

    sc.I.hooks.append(hook)
    try:
        sc.call(f, sc.pack(sc.bounds(y), mode), mode=sc.mode(mode), perturbation_domain=sc.box())
    except Seen:
        pass
    if not n:
        rec.undecided("positive", f.qual, f"{name}: no operand seen")
