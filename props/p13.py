"""Composition of affine bounds."""
from sa.scen import *

EXPLANATION = (
    "The functions composing affine bounds (backward bounds with those of the layer below, with the bounds of the network input, conversion of "
    "the result to each kind of bounds, conversion between modes, contributions of several operands) are interpreted on generic weights and "
    "biases enclosing ghost values: the result must enclose the same output (rule sound) and equal the value obtained by replacing each "
    "enclosed intermediate value by the bound of the right side (rule no-looseness)."
)
H = "props.p13"
CROWN = "decomon.models.crown:"


def obligations(tier):
    out = []
    sizes = [(2, 2, 2), (1, 2, 3)] + ([(3, 2, 1), (2, 3, 2)] if tier != "quick" else [])
    for s in sizes:
        for batch in (1, 2):
            for how in ("function", "layer"):
                out.append((f"merge/{'x'.join(map(str, s))}/{how}/b{batch}", H, "merge_prev", s, how, "full", batch))
    for diag in ("below", "above", "both"):
        out.append((f"merge/diagonal-{diag}", H, "merge_prev", (2, 2, 2), "function", diag, 1))
        out.append((f"merge/diagonal-{diag}/b2", H, "merge_prev", (2, 2, 2), "function", diag, 2))
    for mode in MODES:
        for batch in (1, 2):
            out.append((f"fuse/{mode}/b{batch}", H, "fuse", mode, batch))
            out.append((f"to-backward-mode/{mode}/b{batch}", H, "to_mode", mode, batch))
    for dom in ("ballinf", "ball2", "ball1"):
        for mode in MODES:
            out.append((f"to-backward-mode/{mode}/{dom}", H, "to_mode", mode, 1, dom))
    for a in MODES:
        for b in MODES:
            for n in (2, 3):
                out.append((f"convert/{a}-{b}/out{n}", H, "convert", a, b, n))
    for f in ("add", "subtract", "multiply"):
        for mode in MODES:
            out.append((f"backward_{f}/{mode}", H, "binary", f, mode))
    return out


def lin(sc, w, v, b):
    """w^T v + b for arrays w (B,n,m), v (B,n), b (B,m)"""
    return arr(b.shape, lambda i: ten._fsum([w[i[0], j, i[1]] * v[i[0], j] for j in range(v.shape[1])] + [b[i]]))


def generic(sc, name, n, m, v, y, diag=False):
    """generic weights (w_u, b_u, w_l, b_l) with w_u.v+b_u = y + slack, w_l.v+b_l = y - slack"""
    res = []
    B = v.shape[0]
    for s, sg in (("u", 1), ("l", -1)):
        if diag:
            d = arr((B, n), lambda i: jordan(f"{name}w{s}{list(i)}"))
            w = arr((B, n, n), lambda i: d[i[0], i[1]] if i[1] == i[2] else alg.ZERO)
        else:
            w = arr((B, n, m), lambda i: jordan(f"{name}w{s}{list(i)}"))
        z = arr((B, m), lambda i: alg.ZERO)
        wv = lin(sc, w, v, z)
        b = arr((B, m), lambda i: y[i] + const(sg) * sc.slack(f"{name}s{s}{list(i)}") - wv[i])
        res += [tens(d) if diag else tens(w), tens(b)]
    return res


def full(t):
    a = ten.raw(t)
    if a.ndim == 2:
        n = a.shape[1]
        return arr((a.shape[0], n, n), lambda i: a[i[0], i[1]] if i[1] == i[2] else alg.ZERO)
    return a


def compare(rec, sc, outs, cons, what, below, above, y, x, batch):
    """outs against the composition of the bounds below (of h, in terms of x) and above (of y, in terms of h)"""
    outs = list(outs)
    if len(outs) != 4:
        rec.bad("tensor-count", cons, f"{what}: {len(outs)} tensors")
        return
    A = {"u": lin(sc, full(below[0]), x, ten.raw(below[1])), "l": lin(sc, full(below[2]), x, ten.raw(below[3]))}
    n, m = x.shape[1], y.shape[1]
    for k, wi, sg in (("u", 0, 1), ("l", 2, -1)):
        w, b = ten.raw(outs[wi]), ten.raw(outs[wi + 1])
        if w.shape != (batch, n, m) or b.shape != (batch, m):
            rec.bad("shapes", cons, f"{what} {k}: w {w.shape}, b {b.shape}, expected {(batch, n, m)}, {(batch, m)}", getattr(outs[wi], "origin", None))
            continue
        v = lin(sc, w, x, b)
        t = tens((v - y) * const(sg))
        t.origin = outs[wi + 1].origin
        rec.nonneg(t, "sound", cons, f"{what} {k}")
        wa, ba = full(above[wi]), ten.raw(above[wi + 1])
        o = "l" if k == "u" else "u"
        best = arr(y.shape, lambda i: ten._fsum([alg.pos(wa[i[0], j, i[1]]) * A[k][i[0], j] - alg.pos(-wa[i[0], j, i[1]]) * A[o][i[0], j] for j in range(wa.shape[1])] + [ba[i]]))
        t = tens(v - best)
        t.origin = outs[wi + 1].origin
        rec.zero(t, "no-looseness", cons, f"{what} {k}")


def merge_prev(rec, sizes, how, diag, batch):
    n, h, m = sizes
    sc = Scene(rec, n, batch)
    H_ = ten.raw(sc.ghost((h,), "h"))
    Y = ten.raw(sc.ghost((m,), "y"))
    below = generic(sc, "p", n, h, sc.X, H_, diag in ("below", "both"))
    above = generic(sc, "q", h, m, H_, Y, diag in ("above", "both"))
    ins = [sc.fresh(t) for t in below + above]
    if how == "function":
        f = sc.get("decomon.models.crown", "merge_with_previous")
        outs = sc.call(f, ins)
        cons = f.qual
    else:
        L = sc.get("decomon.models.crown", "MergeWithPrevious")
        lay = sc.call(L, (None, n, h), (None, h, m))
        outs = sc.call(lay, ins)
        cons = CROWN + "MergeWithPrevious"
        shp = sc.call(sc.attr(lay, "compute_output_shape"), [tuple(ten.raw(t).shape) for t in ins])
        rec.check([tuple(s) for s in shp] == [tuple(ten.raw(t).shape) for t in outs], "shapes", cons + ".compute_output_shape", f"{shp}")
    compare(rec, sc, outs, cons, f"composition {sizes} {diag}", below, above, Y, sc.X, batch)


def fuse(rec, mode, batch):
    n, h, m = 2, 2, 2
    sc = Scene(rec, n, batch)
    H_ = sc.ghost((h,), "h")
    Y = ten.raw(sc.ghost((m,), "y"))
    d = sc.bounds(H_)
    above = generic(sc, "q", h, m, ten.raw(H_), Y)
    lay = sc.call(sc.get("decomon.models.crown", "Fuse"), sc.mode(mode))
    outs = sc.call(lay, sc.pack(d, mode) + [sc.fresh(t) for t in above])
    cons = CROWN + "Fuse"
    if mode == IBP:
        outs = list(outs)
        same = len(outs) == 4 and all(ten.raw(a).shape == ten.raw(b).shape and all(alg.is_zero(ten.raw(a)[i] - ten.raw(b)[i]) is True for i in np.ndindex(ten.raw(b).shape)) for a, b in zip(outs, above))
        rec.check(same, "sound", cons, "without affine bounds of the input the backward bounds are unchanged")
        return
    compare(rec, sc, outs, cons, f"fusion in mode {mode}", [d["w_u"], d["b_u"], d["w_l"], d["b_l"]], above, Y, sc.X, batch)


def domain(sc, dom):
    if dom == "box":
        return sc.box(), sc.x_box()
    p = {"ballinf": np.inf, "ball2": 2, "ball1": 1}[dom]
    return sc.call(sc.core.d["BallDomain"], eps=0.5, p=p), tens(sc.X)


def to_mode(rec, mode, batch, dom="box"):
    n, m = 2, 2
    sc = Scene(rec, n, batch)
    Y = ten.raw(sc.ghost((m,), "y"))
    D, x = domain(sc, dom)
    seen = []

    def hook(f, args, kwargs):
        if f.qual.startswith("decomon.core:") and f.name in ("get_upper", "get_lower") and isinstance(args[0], Obj):
            seen.append((f.name, args[0]))
        return MISSING

    lay = sc.call(sc.get("decomon.models.crown", "Convert2BackwardMode"), sc.mode(mode), D)
    bounds = generic(sc, "q", n, m, sc.X, Y)
    if mode == IBP:
        head = [tens(sc.X + sc.Q), tens(sc.X - sc.P)]
    else:
        y0 = sc.ghost((n,), "in")
        head = sc.pack(sc.bounds(y0), mode, x)
    ins = [sc.fresh(t) for t in head + bounds]
    sc.I.hooks.append(hook)
    outs = list(sc.call(lay, ins))
    sc.I.hooks.remove(hook)
    cons = CROWN + "Convert2BackwardMode"
    try:
        o = sc.unpack(outs, mode)
    except Mismatch as e:
        rec.bad("tensor-count", cons, str(e))
        return
    for name, obj in seen if mode != IBP else ():
        rec.check(obj is D, "domain", cons, f"{name} of another domain")
    names = ("w_u", "b_u", "w_l", "b_l")
    if mode != IBP:
        for k, t in list(zip(names, bounds)) + [("x", head[0])]:
            a, b = ten.raw(o[k]), ten.raw(t)
            rec.check(a.shape == b.shape and all(alg.is_zero(a[i] - b[i]) is True for i in np.ndindex(b.shape)), "unchanged", cons, f"{k} in mode {mode}")
    if mode != AFFINE:
        Db, xb = (D, x) if mode != IBP else (sc.box(), sc.x_box())
        for k, g, wi, sg in (("u_c", "get_upper", 0, 1), ("l_c", "get_lower", 2, -1)):
            best = sc.call(sc.attr(Db, g), xb, bounds[wi], bounds[wi + 1])
            v, w = ten.raw(o[k]), ten.raw(best)
            if v.shape != w.shape:
                rec.bad("shapes", cons, f"{k} has shape {v.shape}")
                continue
            t = tens(v - w)
            t.origin = o[k].origin
            rec.zero(t, "no-looseness", cons, f"{k} is the extremum over the domain in mode {mode} {dom}")
            if dom == "box":
                rec.nonneg(tens((v - Y) * const(sg)), "sound", cons, f"{k} in mode {mode}")


def convert(rec, a, b, n):
    """Convert2Mode: bounds of the same value, computed from the same information"""
    sc = Scene(rec, 2, 1)
    y = sc.ghost((n,), "y")
    d = sc.bounds(y)
    lay = sc.call(sc.get("decomon.models.utils", "Convert2Mode"), mode_from=sc.mode(a), mode_to=sc.mode(b), perturbation_domain=sc.box(), input_dim=2)
    x = sc.x_box()
    ins = sc.pack(d, a, x)
    outs = list(sc.call(lay, ins))
    cons = "decomon.models.utils:Convert2Mode"
    try:
        o = sc.unpack(outs, b)
    except Mismatch as e:
        rec.bad("tensor-count", cons, f"{a} to {b}: {e}")
        return
    Y = ten.raw(y)
    given = sc.unpack(ins, a)
    for k, sg in (("u", 1), ("l", -1)):
        if b != AFFINE:
            v = ten.raw(o[k + "_c"])
            t = tens((v - Y) * const(sg))
            t.origin = o[k + "_c"].origin
            rec.nonneg(t, "sound", cons, f"{a} to {b}: {k}_c")
            if k + "_c" in given:
                rec.nonneg(tens((ten.raw(given[k + "_c"]) - v) * const(sg)), "no-looseness", cons, f"{a} to {b}: {k}_c not looser than given")
            if "w_" + k in given:
                c = ten.raw(sc.call(sc.attr(sc.box(), "get_upper" if sg > 0 else "get_lower"), x, given["w_" + k], given["b_" + k]))
                rec.nonneg(tens((c - v) * const(sg)), "no-looseness", cons, f"{a} to {b}: {k}_c not looser than the affine bound")
        if b != IBP and a != IBP:
            for q in ("w_" + k, "b_" + k):
                p, r = ten.raw(o[q]), ten.raw(given[q])
                rec.check(p.shape == r.shape and all(alg.is_zero(p[i] - r[i]) is True for i in np.ndindex(r.shape)), "unchanged", cons, f"{a} to {b}: {q}")
        if b != IBP and a == IBP:
            w, bb = ten.raw(o["w_" + k]), ten.raw(o["b_" + k])
            if w.shape != (1, 2, n) or bb.shape != (1, n):
                rec.bad("shapes", cons, f"{a} to {b}: w_{k} {w.shape}, b_{k} {bb.shape}, x {ten.raw(o['x']).shape} for {n} values")
                continue
            for i in np.ndindex(*w.shape):
                if alg.is_zero(w[i]) is not True:
                    rec.bad("sound", cons, f"{a} to {b}: constant bounds have null weights")
                    break
            t = tens((bb - Y) * const(sg))
            rec.nonneg(t, "sound", cons, f"{a} to {b}: affine {k}")


def binary(rec, name, mode):
    """backward_add and the like with generic weights above"""
    sc = Scene(rec, 2, 1)
    f = sc.get("decomon.backward_layers.utils", "backward_" + name)
    ys = [sc.ghost((2,), f"y{i}") for i in range(2)]
    if name == "multiply" and mode == IBP:
        ds = []
        for i in range(2):
            low = ten.raw(jordan_tensor((1, 2), f"L{i}"))
            y = tens(arr(low.shape, lambda j: low[j] + fresh(f"s{i}{list(j)}", "0+")))
            ys[i] = y
            ds.append({"l_c": tens(low), "y": y, "u_c": tens(arr(low.shape, lambda j: ten.raw(y)[j] + fresh(f"t{i}{list(j)}", "0+")))})
    else:
        ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    K = sc.mod("keras.ops")
    z = ten.raw(sc.call(K.d[name], ys[0], ys[1]))
    if name == "multiply" and mode != IBP:
        return
    sc.contract("decomon.utils:minus", lambda sc, a, y: sc.call(K.d["negative"], y[0]))
    Y = ten.raw(sc.ghost((2,), "out"))
    above = generic(sc, "q", 2, 2, z, Y)
    x = sc.x_box()
    outs = sc.call(f, sc.pack(ds[0], mode, x), sc.pack(ds[1], mode, x), *above, mode=sc.mode(mode), perturbation_domain=sc.box())
    from props.p10 import check_backward
    for i, (o, y) in enumerate(zip(outs, ys)):
        check_backward(sc, o, y, tens(Y), f.qual, f"{name} operand {i}", exact=False)
