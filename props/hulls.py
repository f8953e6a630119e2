"""Linear relaxations of scalar activation functions.

extract(): the relaxation (w_u, b_u, w_l, b_l) an activation function uses on an interval [L, U], read off by propagating the identity
(w = 1, b = 0, box [L, U]).  The relaxation is then judged as a line against the function:
 * convex function: a line above at both ends of the interval is above everywhere; a tangent is below everywhere;
 * concave function: mirrored; piecewise linear function: ends and breakpoints."""
from sa.scen import *
from sa import alg, ten
from sa.alg import fresh, jordan, const, apply_fn, recip
from sa.interp import Env, MISSING

FUN = {
    "relu": dict(f=lambda p: alg.pos(p), shape="pl", monotone=1),
    "exponential": dict(f=lambda p: apply_fn("exp", p), d=lambda p: apply_fn("exp", p), shape=1, monotone=1),
    "exp": dict(f=lambda p: apply_fn("exp", p), d=lambda p: apply_fn("exp", p), shape=1, monotone=1),
    "softplus": dict(f=lambda p: apply_fn("softplus", p), d=lambda p: apply_fn("sigmoid", p), shape=1, monotone=1, above_relu=True),
    "softplus_": dict(f=lambda p: apply_fn("softplus", p), d=lambda p: apply_fn("sigmoid", p), shape=1, monotone=1, above_relu=True),
    "log": dict(f=lambda p: apply_fn("log", p), d=lambda p: recip(p), shape=-1, monotone=1, positive=True),
    "frac_pos": dict(f=lambda p: recip(p), d=lambda p: -recip(p) * recip(p), shape=1, monotone=-1, positive=True),
    "sigmoid": dict(f=lambda p: apply_fn("sigmoid", p), shape=None, monotone=1),
    "tanh": dict(f=lambda p: apply_fn("tanh", p), shape=None, monotone=1),
    "softsign": dict(f=lambda p: apply_fn("softsign", p), shape=None, monotone=1),
}


def intervals(fun):
    """named abstract intervals (L, U, breakpoints strictly inside)"""
    t = lambda n: fresh(n, "+")
    if FUN[fun].get("positive"):
        a, s = t("L"), t("D")
        yield "positive", a, a + s, []
        return
    if FUN[fun]["shape"] is None:
        return
    a, s = t("aL"), t("aD")
    yield "alive", a, a + s, []
    a, s = t("dU"), t("dD")
    yield "dead", -a - s, -a, []
    l, u = t("cl"), t("cu")
    yield "crossing-up", -l, l + u, [alg.ZERO]
    l, u = t("el"), t("eu")
    yield "crossing-down", -l - u, l, [alg.ZERO]


def set_box(sc, L, U):
    X = sc.X[0, 0]
    sc.P[0, 0] = X - L
    sc.Q[0, 0] = U - X


def one(p, shape=(1, 1)):
    return tens(arr(shape, lambda i: p))


def extract(sc, run, mode, L, U):
    """(w_u, b_u, w_l, b_l) polynomials and constant bounds used on [L, U]"""
    set_box(sc, L, U)
    d = {"u_c": one(U), "l_c": one(L), "w_u": one(alg.ONE, (1, 1, 1)), "w_l": one(alg.ONE, (1, 1, 1)), "b_u": one(alg.ZERO), "b_l": one(alg.ZERO)}
    outs = run(sc.pack(d, mode))
    return sc.unpack(list(outs), mode)


def scalar(t):
    a = ten.raw(t)
    if a.size != 1:
        raise Mismatch(f"one value expected, got shape {a.shape}")
    return a.reshape(-1)[0]


def touches(w, b, spec, pts):
    for c in pts:
        if alg.is_zero(w - spec["d"](c)) is True and alg.is_zero(b - (spec["f"](c) - spec["d"](c) * c)) is True:
            return True
    return False


def judge_line(rec, cons, what, fun, side, w, b, L, U, breaks, origin=None):
    """side=+1: w*y+b must be above f on [L,U]"""
    spec = FUN[fun]
    f = spec["f"]
    gap = lambda c: (w * c + b - f(c)) * side
    rule = "line-above" if side > 0 else "line-below"
    # refutation: a point of the interval on the wrong side
    fr = fresh("fr", "0+")
    pts = [L, U, (L + U) * const(Fraction(1, 2)), L * const(Fraction(1, 4)) + U * const(Fraction(3, 4)), L * const(Fraction(3, 4)) + U * const(Fraction(1, 4))] + list(breaks)
    for c in pts:
        try:
            r = alg.refute_nonneg(gap(c))
        except alg.TooBig:
            r = None
        if r is not None:
            rec.bad(rule, cons, f"{what}: line {alg.show(w, 6)} * y + {alg.show(b, 6)} is on the wrong side by {-r[1]:.3g} at y = {alg.show(c, 4)} of [{alg.show(L, 4)}, {alg.show(U, 4)}]", origin)
            return
    ok = lambda c: alg.nonneg(gap(c)) is True or alg.is_zero(gap(c)) is True
    if spec["shape"] == "pl":
        good = all(ok(c) for c in [L, U] + breaks)
    elif spec["shape"] == side:
        good = ok(L) and ok(U)
    elif spec["shape"] == -side:
        good = touches(w, b, spec, [L, U, (L + U) * const(Fraction(1, 2))])
        if not good and spec.get("above_relu"):
            g = lambda c: (w * c + b - alg.pos(c)) * side
            good = all(alg.nonneg(g(c)) is True for c in [L, U] + breaks)
    else:
        good = False
    if good:
        rec.ok(rule, cons, what)
    else:
        rec.undecided(rule, cons, f"{what}: line {alg.show(w, 6)} * y + {alg.show(b, 6)}")


def judge(rec, sc, cons, what, fun, run, mode, intervals_):
    f = FUN[fun]["f"]
    for iname, L, U, breaks in intervals_:
        d = extract(sc, run, mode, L, U)
        lab = f"{what} {iname}"
        if mode != AFFINE:
            m = FUN[fun]["monotone"]
            hi, lo = (f(U), f(L)) if m > 0 else (f(L), f(U))
            rec.nonneg(one(scalar(d["u_c"]) - hi), "constant", cons, lab + " u_c")
            rec.nonneg(one(lo - scalar(d["l_c"])), "constant", cons, lab + " l_c")
        if mode != IBP and FUN[fun]["shape"] is not None:
            judge_line(rec, cons, lab + " upper", fun, 1, scalar(d["w_u"]), scalar(d["b_u"]), L, U, breaks, d["b_u"].origin)
            judge_line(rec, cons, lab + " lower", fun, -1, scalar(d["w_l"]), scalar(d["b_l"]), L, U, breaks, d["b_l"].origin)
            compose(rec, sc, cons, lab, run, mode, L, U, d)


FULL = "decomon.core:InputsOutputsSpec.get_fullinputs_from_inputsformode"


def compose(rec, sc, cons, what, run, mode, L, U, hull):
    """with affine bounds A_l <= y <= A_u of the activation input, the result must enclose the line applied to y"""
    X = fresh("cx")
    y = fresh("cy")
    wu, wl = jordan("cwu"), jordan("cwl")
    su, sl = fresh("csu", "0+"), fresh("csl", "0+")
    d = {"u_c": one(U), "l_c": one(L), "w_u": one(wu, (1, 1, 1)), "w_l": one(wl, (1, 1, 1)), "b_u": one(y + su - wu * X), "b_l": one(y - sl - wl * X)}
    hits = []

    def hook(f, args, kwargs):
        if f.qual != FULL or len(hits) % 2:
            return MISSING
        hits.append(1)
        try:
            r = list(sc.I.call(f, args, kwargs))
        finally:
            hits.append(1)
        for k, v in ((1, U), (4, L)):
            if isinstance(r[k], T) and ten.raw(r[k]).shape == (1, 1):
                r[k] = one(v)
        return r

    sc.I.hooks.append(hook)
    x = tens(arr((1, 2, 1), lambda i: X - fresh("cp", "0+") if i[1] == 0 else X + fresh("cq", "0+")))
    try:
        outs = sc.unpack(list(run(sc.pack(d, mode, x))), mode)
    finally:
        sc.I.hooks.remove(hook)
    if not hits:
        rec.undecided("composition", cons, what + ": concretisation not located")
        return
    for s, sg in (("u", 1), ("l", -1)):
        v = scalar(outs["w_" + s]) * X + scalar(outs["b_" + s])
        w, b = scalar(hull["w_" + s]), scalar(hull["b_" + s])
        t = one((v - w * y - b) * sg)
        t.origin = outs["b_" + s].origin
        rec.nonneg(t, "composition", cons, f"{what} {s}")
