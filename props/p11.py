"""Backward propagation through activations."""
from sa.scen import *
from props.hulls import *
from props.p01 import keras_layer, decomon_of
from props.p10 import to_backward

EXPLANATION = (
    "The backward counterpart of each activation layer is interpreted on tensors whose elements lie in intervals of every kind (positive, "
    "negative, crossing zero either way); its diagonal is read off as one line per element and each line judged against the function on the "
    "interval of that element (convex side at the ends, tangent side at a point of contact, breakpoints); the rest of the matrix must be zero. "
    "Activations whose backward version is a tangent search are checked for shape, independence of the elements and propagation of the "
    "relaxation to the right element (P40 decides their lines)."
)
H = "props.p11"
SLOPES = ("volume-slope", "adaptative-slope", "same-slope", "zero-lb", "one-lb")


def obligations(tier):
    out = []
    for mode in MODES:
        for a in ("relu", "softplus"):
            for s in SLOPES:
                for shape in ((4,), (2, 2)):
                    vias = ("keras", "decomon") if s == SLOPES[0] or tier != "quick" else ("keras",)
                    for via in vias:
                        for ft in (False, True):
                            out.append((f"{a}/{s}/{mode}/{'x'.join(map(str, shape))}/{via}/{'finetune' if ft else 'plain'}", H, "act", a, s, mode, shape, via, ft))
        for a in ("sigmoid", "tanh", "softsign"):
            for shape in ((3,), (2, 2)):
                for via in ("keras", "decomon"):
                    out.append((f"{a}/{mode}/{'x'.join(map(str, shape))}/{via}", H, "sshape", a, mode, shape, via))
    for a in ("relu", "sigmoid", "tanh", "softplus", "softsign", "elu", "selu", "exponential", "softmax", "hard_sigmoid"):
        for mode in MODES:
            out.append((f"rejects/{a}/{mode}", H, "rejects", a, mode))
    return out


def make(sc, act, mode, shape, via, **kw):
    lay = keras_layer(sc, ("Activation", (act,), {}), shape)
    if via == "decomon":
        lay = decomon_of(sc, lay, mode, sc.nin)
    return to_backward(sc, lay, mode, **kw)


def box_inputs(sc, mode, L, U, shape):
    n = len(L)
    for j in range(n):
        sc.P[0, j] = sc.X[0, j] - L[j]
        sc.Q[0, j] = U[j] - sc.X[0, j]
    idx = {i: k for k, i in enumerate(np.ndindex(*shape))}
    sh = (1,) + tuple(shape)
    w = arr((1, n) + tuple(shape), lambda i: alg.ONE if idx[i[2:]] == i[1] else alg.ZERO)
    z = arr(sh, lambda i: alg.ZERO)
    d = {"u_c": tens(arr(sh, lambda i: U[idx[i[1:]]])), "l_c": tens(arr(sh, lambda i: L[idx[i[1:]]])),
         "w_u": tens(w), "w_l": tens(w.copy()), "b_u": tens(z), "b_l": tens(z.copy())}
    return sc.pack(d, mode)


def set_params(sc, bl):
    """trainable relaxation parameters: any value their constraint admits"""
    for v in ten_list(sc, bl):
        a = ten.raw(v)
        for i in np.ndindex(a.shape):
            p, q = fresh("ga", "0+"), fresh("gb", "+")
            a[i] = p * recip(p + q)


def ten_list(sc, bl):
    v = sc.attr(bl, "finetune_param")
    return list(v) if isinstance(v, list) else [v]


def read(rec, outs, n, cons, what):
    """the diagonals of the four tensors, or None when a shape is wrong or an element off the diagonal is not zero"""
    outs = list(outs)
    if len(outs) != 4:
        rec.bad("tensor-count", cons, f"{what}: expected 4 tensors, got {len(outs)}")
        return None
    res = []
    for k in range(4):
        a = ten.raw(outs[k])
        want = (1, n, n) if k % 2 == 0 else (1, n)
        if a.shape != want:
            rec.bad("shapes", cons, f"{what}: tensor {k} has shape {a.shape}, expected {want}", getattr(outs[k], "origin", None))
            return None
        if k % 2 == 0:
            off = arr((n, n), lambda i: a[0][i] if i[0] != i[1] else alg.ZERO)
            if any(p.t for p in off.reshape(-1)):
                rec.zero(tens(off), "diagonal", cons, f"{what}: off-diagonal weights")
            else:
                rec.ok("diagonal", cons, what)
            res.append([a[0, i, i] for i in range(n)])
        else:
            res.append([a[0, i] for i in range(n)])
    return res


def act(rec, name, slope, mode, shape, via, ft):
    n = int(np.prod(shape))
    sc = Scene(rec, n, 1)
    bl = make(sc, name, mode, shape, via, slope=sc.slope(slope), finetune=ft)
    cons = f"{bl.cls.module.name}:{bl.cls.name}"
    iv = list(intervals(name))
    iv = [iv[k % len(iv)] for k in range(n)]
    ins = box_inputs(sc, mode, [x[1] for x in iv], [x[2] for x in iv], shape)
    if ft:
        sc.call(sc.attr(bl, "build"), [tuple(t.a.shape) for t in ins])
        set_params(sc, bl)
    outs = sc.call(bl, ins)
    what = f"{name} {slope} {'finetune' if ft else ''}"
    r = read(rec, outs, n, cons, what)
    if r is None:
        return
    for k, (iname, L, U, br) in enumerate(iv):
        judge_line(rec, cons, f"{what} {iname} upper", name, 1, r[0][k], r[1][k], L, U, br, outs[1].origin)
        judge_line(rec, cons, f"{what} {iname} lower", name, -1, r[2][k], r[3][k], L, U, br, outs[3].origin)


TANGENTS = {"decomon.utils:get_t_upper": "u", "decomon.utils:get_t_lower": "l"}


def sshape(rec, name, mode, shape, via):
    n = int(np.prod(shape))
    sc = Scene(rec, n, 1)

    def hook(f, args, kwargs):
        if f.qual in TANGENTS:
            return [base_tensor(ten.raw(args[0]).shape, f"tan{TANGENTS[f.qual]}{k}") for k in range(2)]
        return MISSING

    sc.I.hooks.append(hook)
    bl = make(sc, name, mode, shape, via)
    cons = f"{bl.cls.module.name}:{bl.cls.name}"
    # one interval above zero (tangent or flat upper line), one below zero (lower), the rest crossing: the tangent search is opaque
    t = lambda m: fresh(m, "+")
    iv = []
    for k in range(n):
        if k % 3 == 0:
            a, s = t("aL"), t("aD")
            iv.append(("positive", a, a + s))
        elif k % 3 == 1:
            a, s = t("dU"), t("dD")
            iv.append(("negative", -a - s, -a))
        else:
            iv.append(("crossing", -t("cL"), t("cU")))
    ins = box_inputs(sc, mode, [x[1] for x in iv], [x[2] for x in iv], shape)

    outs = sc.call(bl, ins)
    r = read(rec, outs, n, cons, name)
    if r is None:
        return
    f = FUN[name]["f"]
    for k, (iname, L, U) in enumerate(iv):
        # refutation only: whatever the case split, a line on the wrong side at an end of the interval is a violation
        for side, w, b in ((1, r[0][k], r[1][k]), (-1, r[2][k], r[3][k])):
            ids = {m[0][0] for p in (L, U) for m in p.t if m}
            if any(x.startswith("tan") for x in names_of(w) | names_of(b)):
                continue  # decided by the tangent search
            for e, en in ((L, "lower end"), (U, "upper end")):
                gap = (w * e + b - f(e)) * side
                rr = alg.refute_nonneg(gap)
                if rr is not None:
                    rec.bad("line-above" if side > 0 else "line-below", cons, f"{name} {iname}: wrong side by {-rr[1]:.3g} at the {en} of the interval", outs[1 if side > 0 else 3].origin)
                    break
            else:
                rec.ok("ends", cons, f"{name} {iname} {'upper' if side > 0 else 'lower'} line not refuted at the ends")


def names_of(p, seen=None):
    out = set()
    stack = [p]
    done = set()
    while stack:
        q = stack.pop()
        for m in q.t:
            for a, _ in m:
                if a in done:
                    continue
                done.add(a)
                at = alg.ATOMS[a]
                if at.args:
                    stack += list(at.args)
                else:
                    out.add(str(at.name))
    return out


def rejects(rec, name, mode):
    """the difference-of-convex version and the activations without a backward relaxation are refused, never approximated"""
    sc = Scene(rec, 2, 1)
    supported = name in ("relu", "sigmoid", "tanh", "softplus", "softsign")
    get = sc.get("decomon.backward_layers.activations", "get")
    y = sc.ghost((2,))
    try:
        f = sc.call(get, name)
        ins = sc.pack(sc.bounds(y), mode)
        kw = {"dc_decomp": True} if supported and name != "softsign" else {}
        if supported and name == "softsign":
            rec.ok("rejected", f.qual, "softsign has no difference-of-convex option")
            return
        sc.call(f, ins, mode=sc.mode(mode), perturbation_domain=sc.box(), **kw)
    except AbsRaise as e:
        rec.check(e.typename() in ("NotImplementedError", "ValueError"), "rejected", "decomon.backward_layers.activations", f"{name}: {e.typename()}", e.where)
        return
    rec.bad("rejected", f.qual, f"{name} in mode {mode} {'with dc_decomp ' if kw else ''}returned a relaxation instead of being refused")
