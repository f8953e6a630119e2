"""Losses and metrics."""
from sa.scen import *
from sa.ten import Prog
from props.models import *

EXPLANATION = (
    "The losses, metric layers, robust-radius and cross-entropy models of src/decomon/metrics are interpreted on arbitrary bounds in each mode and "
    "for each kind of domain, through the functions building them on a converted model and on direct calls. Their values are compared with "
    "specifications over the bounds: which bound is read for which output, source and target, and how affine bounds are evaluated on the domain "
    "(extremum of P07). Single-mode values must be equal (rule value); with both kinds of bounds the value must lie between the score of the best "
    "bound of each pair and the best of the two scores (rules sound, tight)."
)
H = "props.p27"
ASSUMPTIONS = [
    "extrema over domains are decided by P07; the bounds of the converted model by P14",
    "labels are 0/1 masks over the outputs; numbers of samples, inputs and outputs are enumerated, bounds are unconstrained",
    "real arithmetic; penalties of 1e6 used as masks are assumed to dominate the bounds",
]
LIMIT = {"quick": 100, "thorough": 600}
DOMS = {"box": None, "ballinf": (float("inf"), 0.5), "ball2": (2, 0.5), "ball1": (1, 0.5)}
L = "decomon.metrics.loss"
M = "decomon.metrics.metric"


def obligations(tier):
    out = []
    deep = tier == "deep"
    for mode in MODES:
        for dom in DOMS:
            for n_out in (3, 2) if deep or dom == "box" else (3,):
                tag = f"{mode}/{dom}/out{n_out}"
                for w in ("upper", "lower"):
                    out.append((f"{w}-loss/{tag}", H, "ref_loss", mode, dom, w, n_out))
                for lab in ("one", "two") if n_out == 3 else ("one",):
                    for kw in ({}, {"sigmoid": True}, {"clip_value": 0.0}, {"sigmoid": True, "clip_value": -1.0}):
                        if kw and dom != "box" and not deep:
                            continue
                        out.append((f"adv-loss/{tag}/{lab}/{'-'.join(kw) or 'plain'}", H, "adv_loss", mode, dom, n_out, lab, kw))
                    for fn in ("build_formal_adv_model", "build_formal_adv_check_model", "build_formal_upper_model"):
                        out.append((f"{fn}/{tag}/{lab}", H, "formal", mode, dom, n_out, lab, fn))
                    for cls in ("AdversarialScore", "AdversarialCheck", "UpperScore"):
                        if dom == "box" or deep:
                            out.append((f"backward-{cls}/{tag}/{lab}", H, "metric_backward", mode, dom, n_out, lab, cls))
                for asym in (False, True):
                    out.append((f"crossentropy{'-asymptotic' if asym else ''}/{tag}", H, "fusion", mode, dom, n_out, asym))
            if dom == "box" and mode != IBP:
                for n_out in (2, 3) + ((4,) if deep else ()):
                    out.append((f"radius/{mode}/out{n_out}", H, "radius", mode, n_out))
                    out.append((f"radius-backward/{mode}/out{n_out}", H, "radius", mode, n_out, True))
        out.append((f"adv-loss-softmax/{mode}", H, "adv_softmax", mode))
        for n in (2, 3):
            out.append((f"categorical-cross-entropy/{mode}/n{n}", H, "entropy", mode, n))
    return out


class Case:
    def __init__(self, rec, mode, dom, n_out, B=2, nin=2):
        alg.NARY[0] = True
        alg.BIGM[0] = 10**5
        self.rec, self.mode, self.n_out, self.nin, self.B = rec, mode, n_out, nin, B
        self.sc = sc = Scene(rec, nin, B)
        i = sc.call(sc.keras.d["Input"], (nin,))
        t = sc.call(sc.call(sc.layers.d["Dense"], n_out), i)
        km = sc.call(sc.mod("keras.models").d["Model"], i, t)
        p = DOMS[dom]
        self.domain = sc.box() if p is None else sc.call(sc.core.d["BallDomain"], p=p[0], eps=p[1])
        self.model = sc.call(sc.get("decomon.models", "clone"), km, method="forward-hybrid", perturbation_domain=self.domain,
                             final_ibp=mode != AFFINE, final_affine=mode != IBP)
        self.Y = arr((B, n_out), lambda i: fresh(f"Y{list(i)}"))
        self.d = sc.bounds(tens(self.Y))
        x = sc.x_box() if p is None else tens(sc.X.copy())
        self.x = x
        outs = sc.pack(self.d, mode, x)
        # the outputs of the converted model are arbitrary bounds
        for o, n in zip(list(sc.attr(self.model, "outputs")), outs):
            o.a = n.a
        if mode != IBP or p is not None:
            inp = list(sc.attr(self.model, "inputs"))[0]
            if inp.a.shape == x.a.shape:
                inp.a = x.a
        self.ext = {}

    def extremum(self, k, b, w, c):
        X = tens(ten.raw(self.x)[b:b + 1].copy())
        Wt = tens(np.array(list(w), dtype=object).reshape(1, self.nin, 1))
        C = tens(np.array([c], dtype=object).reshape(1, 1))
        return ten.raw(self.sc.call(self.sc.attr(self.domain, "get_upper" if k == "u" else "get_lower"), X, Wt, C)).ravel()[0]

    def raw(self, k):
        return ten.raw(self.d[k])

    def bound(self, k, b, o):
        """constant and affine values of the upper (u) or lower (l) bound of output o on box b"""
        r = {}
        if self.mode != AFFINE:
            r["c"] = self.raw(k + "_c")[b, o]
        if self.mode != IBP:
            r["a"] = self.extremum(k, b, self.raw("w_" + k)[b, :, o], self.raw("b_" + k)[b, o])
        return r

    def margin(self, b, t, s, swap=False):
        """upper bound of output t minus output s (swap: guaranteed largest value)"""
        u, l = ("u", "l") if not swap else ("l", "u")
        r = {}
        if self.mode != AFFINE:
            r["c"] = self.raw(u + "_c")[b, t] - self.raw(l + "_c")[b, s]
        if self.mode != IBP:
            r["a"] = self.extremum("u", b, self.raw("w_" + u)[b, :, t] - self.raw("w_" + l)[b, :, s], self.raw("b_" + u)[b, t] - self.raw("b_" + l)[b, s])
        return r

    def labels(self, kind):
        """mask of the sources of each sample"""
        rows = []
        for b in range(self.B):
            s = {b % self.n_out} | ({(b + 1) % self.n_out} if kind == "two" else set())
            rows.append(sorted(s))
        y = np.array([[int(o in r) for o in range(self.n_out)] for r in rows])
        return tens(np.vectorize(const, otypes=[object])(y)), rows

    def between(self, t, lo, hi, cons, what):
        """lo <= t <= hi"""
        a = ten.raw(t)
        lo, hi = (np.array(v, dtype=object).reshape(a.shape) for v in (lo, hi))
        for v, rule in ((a - lo, "sound"), (hi - a, "tight")):
            v = tens(v)
            v.origin = t.origin
            self.rec.nonneg(v, rule, cons, what)

    def equal(self, t, wanted, cons, what):
        a = ten.raw(t)
        v = tens(a - np.array(wanted, dtype=object).reshape(a.shape))
        v.origin = t.origin
        self.rec.zero(v, "value", cons, what)


def vmin(l):
    return -alg.nmax([-v for v in l])


def mean(l):
    return ten._fsum(l) * const(Fraction(1, len(l)))


def scalar_result(c, t, cons, shape, what):
    if not isinstance(t, T):
        if isinstance(t, (list, tuple)) and len(t) == 1:
            t = t[0]
        else:
            c.rec.undecided("shapes", cons, "not a tensor")
            return None
    if t.a.shape != shape:
        c.rec.bad("shapes", cons, f"{what}: value of shape {t.a.shape} instead of {shape}", t.origin)
        return None
    return t


def prediction(c):
    """what the model made by get_model returns"""
    f = c.sc.get(L, "get_model")
    g = c.sc.call(f, c.model)
    outs = list(c.sc.attr(g, "outputs"))
    c.rec.check(len(outs) == 1, "packing", f.qual, "a single output")
    for nm in ("ibp", "affine", "perturbation_domain"):
        c.rec.check(c.sc.attr(g, nm) is c.sc.attr(c.model, nm) or c.sc.attr(g, nm) == c.sc.attr(c.model, nm), "packing", f.qual, f"{nm} of the model is kept")
    return outs[0]


def ref_loss(rec, mode, dom, which, n_out):
    c = Case(rec, mode, dom, n_out)
    f = c.sc.get(L, f"get_{which}_loss")
    loss = c.sc.call(f, c.model)
    R = arr((c.B, n_out), lambda i: fresh(f"ref{list(i)}"))
    t = c.sc.call(loss, tens(R), prediction(c))
    what = f"{which} loss, {mode}, {dom}"
    t = scalar_result(c, t, f.qual, (), what)
    if t is None:
        return
    k, sg = ("u", 1) if which == "upper" else ("l", -1)
    lo, hi = [], []
    for b in range(c.B):
        v = [{q: (p - R[b, o]) * const(sg) for q, p in c.bound(k, b, o).items()} for o in range(n_out)]
        lo.append(alg.nmax([vmin(list(x.values())) for x in v]))
        hi.append(vmin([alg.nmax([x[q] for x in v]) for q in v[0]]))
    if mode == HYBRID:
        c.between(t, mean(lo), mean(hi), f.qual, what)
    else:
        c.equal(t, mean(hi), f.qual, what)


def margins(c, b, S, swap=False):
    v = [c.margin(b, t, s, swap) for s in S for t in range(c.n_out) if t not in S]
    lo = alg.nmax([vmin(list(x.values())) for x in v])
    hi = vmin([alg.nmax([x[q] for x in v]) for q in v[0]])
    return lo, hi


def adv_loss(rec, mode, dom, n_out, lab, kw):
    c = Case(rec, mode, dom, n_out, B=2 if not kw else 1)
    f = c.sc.get(L, "get_adv_loss")
    loss = c.sc.call(f, c.model, **kw)
    y, S = c.labels(lab)
    t = c.sc.call(loss, y, prediction(c))
    what = f"adversarial loss {kw}, {mode}, {dom}, sources {S}"
    t = scalar_result(c, t, f.qual, (), what)
    if t is None:
        return

    def post(v):
        if "clip_value" in kw:
            v = alg.pmax(v, const(kw["clip_value"]))
        return alg.apply_fn("sigmoid", v) if kw.get("sigmoid") else v

    lo, hi = zip(*[margins(c, b, S[b]) for b in range(c.B)])
    lo, hi = mean([post(v) for v in lo]), mean([post(v) for v in hi])
    if mode == HYBRID:
        c.between(t, lo, hi, f.qual, what)
    else:
        c.equal(t, hi, f.qual, what)


def adv_softmax(rec, mode):
    """the softmax option bounds the margin of the probabilities"""
    c = Case(rec, mode, "box", 2, B=1)
    f = c.sc.get(L, "get_adv_loss")
    loss = c.sc.call(f, c.model, softmax=True)
    y, S = c.labels("one")
    t = c.sc.call(loss, y, prediction(c))
    t = scalar_result(c, t, f.qual, (), "")
    if t is None:
        return
    e = [alg.apply_fn("exp", c.Y[0, o]) for o in range(2)]
    v = tens(np.array(ten.raw(t).reshape(-1)[0] * (e[0] + e[1]) - (e[1] - e[0]), dtype=object).reshape(1))
    v.origin = t.origin
    rec.nonneg(v, "sound", f.qual, f"adversarial loss with softmax, {mode}: below the margin of the probabilities")


def formal(rec, mode, dom, n_out, lab, fn):
    c = Case(rec, mode, dom, n_out)
    sc = c.sc
    f = sc.get(M, fn)
    y, S = c.labels(lab)
    kind = {"build_formal_adv_model": "AdversarialScore", "build_formal_adv_check_model": "AdversarialCheck", "build_formal_upper_model": "UpperScore"}[fn]
    seen = {}

    def hook(g, args, kwargs):
        # the labels are an input of the model: known ones are substituted when the layer is called
        if g.name == "call" and isinstance(args[0], Obj) and args[0].cls.name == kind and "done" not in seen:
            seen["done"] = True
            ins = list(args[1])
            ins = [y if t.a.shape == y.a.shape and i in (0, len(ins) - 1) else t for i, t in enumerate(ins)]
            r = sc.I.call(g, [args[0], ins] + list(args[2:]), kwargs)
            seen["layer"], seen["value"] = args[0], r
            return r
        return MISSING

    sc.I.hooks.append(hook)
    sc.call(f, c.model)
    if "value" not in seen:
        rec.undecided("value", f.qual, f"no call of {kind}")
        return
    D = sc.attr(seen["layer"], "perturbation_domain")
    rec.check(D is c.domain or sc.call(sc.attr(D, "get_config")) == sc.call(sc.attr(c.domain, "get_config")), "domain", f.qual, "domain of the converted model")
    cons = f.qual
    t = scalar_result(c, seen["value"], cons, (c.B,), fn)
    if t is None:
        return
    lo, hi = [], []
    for b in range(c.B):
        if kind == "UpperScore":
            v = [c.bound("u", b, o) for o in S[b]]
            lo.append(ten._fsum([vmin(list(x.values())) for x in v]))
            hi.append(vmin([ten._fsum([x[q] for x in v]) for q in v[0]]))
        else:
            l, h = margins(c, b, S[b], kind == "AdversarialCheck")
            lo.append(l)
            hi.append(h)
    if kind == "UpperScore" and mode != IBP:
        # each affine bound may be evaluated on the domain before or after the sum: the sum is the tighter one
        tight = []
        for b in range(c.B):
            a = c.extremum("u", b, [ten._fsum([c.raw("w_u")[b, q, o] for o in S[b]]) for q in range(c.nin)], ten._fsum([c.raw("b_u")[b, o] for o in S[b]]))
            cc = [ten._fsum([c.raw("u_c")[b, o] for o in S[b]])] if mode == HYBRID else []
            tight.append(vmin([a] + cc))
        lo = [vmin([x, z]) for x, z in zip(lo, tight)]
        c.between(t, lo, hi, cons, f"{fn} {mode} {dom}")
    elif mode == HYBRID:
        c.between(t, lo, hi, cons, f"{fn} {mode} {dom}")
    else:
        c.equal(t, hi, cons, f"{fn} {mode} {dom}")


def metric_backward(rec, mode, dom, n_out, lab, cls):
    """metric layers given bounds of a backward pass, in addition to forward ones"""
    c = Case(rec, mode, dom, n_out)
    sc = c.sc
    layer = sc.call(sc.get(M, cls), mode != AFFINE, mode != IBP, "backward", c.domain)
    y, S = c.labels(lab)
    W = {k: arr((c.B, c.nin, n_out), lambda i: fresh(f"wb_{k}{list(i)}")) for k in "ul"}
    Bi = {k: arr((c.B, n_out), lambda i: fresh(f"bb_{k}{list(i)}")) for k in "ul"}
    fwd = [t for t in sc.pack(c.d, mode, c.x)]
    if mode != IBP:
        fwd = fwd[1:]
    back = [tens(v[:, None].copy()) for k in "ul" for v in (W[k], Bi[k])]
    t = sc.call(layer, [y, c.x] + fwd + back + [y])
    cons = layer.cls.name
    what = f"{cls}, backward, {mode}, {dom}"
    t = scalar_result(c, t, cons, (c.B,), what)
    if t is None:
        return
    lo, hi = [], []
    for b in range(c.B):
        if cls == "UpperScore":
            v = [dict(c.bound("u", b, o), b=c.extremum("u", b, W["u"][b, :, o], Bi["u"][b, o])) for o in S[b]]
            lo.append(ten._fsum([vmin(list(x.values())) for x in v]))
            hi.append(vmin([ten._fsum([x[q] for x in v]) for q in v[0]]))
            a = [c.extremum("u", b, [ten._fsum([w[b, q, o] for o in S[b]]) for q in range(c.nin)], ten._fsum([z[b, o] for o in S[b]]))
                 for w, z in ([(W["u"], Bi["u"])] + ([(c.raw("w_u"), c.raw("b_u"))] if mode != IBP else []))]
            lo[-1] = vmin([lo[-1]] + a)
        else:
            u, l = "ul" if cls == "AdversarialScore" else "lu"
            v = []
            for s in S[b]:
                for o in range(n_out):
                    if o not in S[b]:
                        r = c.margin(b, o, s, cls == "AdversarialCheck")
                        r["b"] = c.extremum("u", b, W[u][b, :, o] - W[l][b, :, s], Bi[u][b, o] - Bi[l][b, s])
                        v.append(r)
            lo.append(alg.nmax([vmin(list(x.values())) for x in v]))
            hi.append(vmin([alg.nmax([x[q] for x in v]) for q in v[0]]))
    c.between(t, lo, hi, cons, what)


def fusion(rec, mode, dom, n_out, asym):
    c = Case(rec, mode, dom, n_out, B=1)
    sc = c.sc
    f = sc.get(L, "build_asymptotic_crossentropy_model" if asym else "build_crossentropy_model")
    g = sc.call(f, c.model)
    outs = list(sc.attr(g, "outputs"))
    what = f"{f.name}, {mode}, {dom}"
    rec.check(len(outs) == 1, "packing", f.qual, what + ": a single output")
    t = scalar_result(c, outs[0], f.qual, (c.B, n_out), what)
    if t is None:
        return
    U = [c.bound("u", 0, o) for o in range(n_out)]
    Lo = [c.bound("l", 0, o) for o in range(n_out)]

    def value(u, l):
        r = []
        for i in range(n_out):
            if asym:
                r.append(alg.pmax(alg.nmax([u[t] - l[i] for t in range(n_out) if t != i]), const(-1)))
            else:
                m = alg.nmax(u)
                r.append(-l[i] + alg.apply_fn("log", ten._fsum([alg.apply_fn("exp", x - m) for x in u])) + m)
        return r

    best = value([vmin(list(x.values())) for x in U], [alg.nmax(list(x.values())) for x in Lo])
    if mode == HYBRID:
        worst = value([x["c"] for x in U], [x["c"] for x in Lo])
        c.between(t, [best], [worst], f.qual, what)
    else:
        c.equal(t, [best], f.qual, what)


def radius(rec, mode, n_out, backward=False):
    c = Case(rec, mode, "box", n_out, B=1)
    sc = c.sc
    alg.BIGM[0] = None
    sc.mod("_sa").d["EPS"] = Fraction(1, 10**7)  # the guard against null denominators matters here
    f = sc.get(L, "build_radius_robust_model")
    if backward:
        sc.I.setattr(c.model, "backward_bounds", True)
    g = sc.call(f, c.model)
    outs = list(sc.attr(g, "outputs"))
    what = f"{f.name}, {mode}{' backward' if backward else ''}"
    t = scalar_result(c, outs[0], f.qual, (c.B, n_out), what)
    if t is None:
        return
    eps = const(Fraction(1, 10**7))
    x = ten.raw(c.x)
    x0 = [(x[0, 0, q] + x[0, 1, q]) * const(Fraction(1, 2)) for q in range(c.nin)]
    rad = [alg.pmax((x[0, 1, q] - x[0, 0, q]) * const(Fraction(1, 2)), eps) for q in range(c.nin)]
    want = []
    for s in range(n_out):
        v = []
        for k in range(n_out):
            if k == s:
                continue
            if backward:
                w, b = c.raw("w_u")[0, :, k], c.raw("b_u")[0, k]
            else:
                w, b = c.raw("w_u")[0, :, k] - c.raw("w_l")[0, :, s], c.raw("b_u")[0, k] - c.raw("b_l")[0, s]
            score = ten._fsum([w[q] * x0[q] for q in range(c.nin)] + [b])
            den = alg.pmax(ten._fsum([alg.pabs(w[q]) * rad[q] for q in range(c.nin)]), eps)
            v.append(const(1) - alg.pmin(-alg.div(score, den), const(2)))
        want.append(alg.nmax(v + [const(-1)]))
    c.equal(t, [want], f.qual, what)


def entropy(rec, mode, n):
    sc = Scene(rec, 2, 1)
    y = sc.ghost((n,))
    d = sc.bounds(y)
    f = sc.get("decomon.metrics.utils", "categorical_cross_entropy")
    outs = sc.call(f, sc.pack(d, mode), mode=sc.mode(mode), perturbation_domain=sc.box())
    Y = ten.raw(y)
    lse = alg.apply_fn("log", ten._fsum([alg.apply_fn("exp", Y[0, i]) for i in range(n)]))
    sc.check_bounds(list(outs), mode, tens(arr(Y.shape, lambda i: lse - Y[i])), f.qual, f"categorical cross entropy {mode}")
