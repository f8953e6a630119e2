"""Queries on converted models (src/decomon/wrapper.py) interpreted against a model returning arbitrary bounds."""
from sa.scen import *
from props.models import *
from sa.ten import Prog, Unsupported

W = "decomon.wrapper"


class Query:
    """a converted model whose predictions are, for each box (or center) it is given, arbitrary bounds of an arbitrary output.

    Box r is [X_r - n P_r, X_r + n Q_r] with n a power of two, so that the sub-boxes obtained by halving are
    [xmin + a (P_r + Q_r), xmin + c (P_r + Q_r)] with integers a < c; the ghost point of a sub-box is xmin + a (P_r + Q_r) + (c - a) P_r."""

    back = False

    def __init__(self, rec, mode, n_x, n_out=3, nin=2, out_shape=None, log2=0, dom=None, keras=False, back=False):
        self.back = back
        self.rec, self.mode, self.n_x, self.nin = rec, mode, n_x, nin
        alg.NARY[0] = True
        self.sc = sc = Scene(rec, nin, 1)
        self.n = 2 ** log2
        i = sc.call(sc.keras.d["Input"], (nin,))
        t = sc.call(sc.call(sc.layers.d["Dense"], n_out), i)
        if out_shape:
            t = sc.call(sc.call(sc.layers.d["Reshape"], out_shape), t)
        self.out = tuple(out_shape or (n_out,))
        self.n_out = n_out
        self.kmodel = sc.call(sc.mod("keras.models").d["Model"], i, t)
        self.dom = dom
        self.domain = sc.box() if dom is None else sc.call(sc.core.d["BallDomain"], p=dom[0], eps=dom[1])
        if not keras:
            kw = {"back_bounds": [sc.call(sc.keras.d["Input"], (n_out, n_out))]} if back else {}
            self.model = sc.call(sc.get("decomon.models", "clone"), self.kmodel, method="crown" if back else "forward-hybrid", perturbation_domain=self.domain,
                                 final_ibp=mode != AFFINE, final_affine=mode != IBP, **kw)
        else:
            self.model = self.kmodel
        self.rows = []  # (box, alpha, beta, ghost output, bounds) of the boxes the model is called on, in order
        self.stray = None
        self.calls = []
        self.X = arr((n_x, nin), lambda i: fresh(f"X{list(i)}"))
        self.P = arr((n_x, nin), lambda i: fresh(f"P{list(i)}", "0+"))
        self.Q = arr((n_x, nin), lambda i: fresh(f"Q{list(i)}", "0+"))
        self.lo = self.X - self.P * const(self.n)
        self.hi = self.X + self.Q * const(self.n)
        sc.I.hooks.append(self.hook)

    def x(self, which):
        a = {"min": self.lo, "max": self.hi, "x": self.X}[which]
        t = T(a.copy(), "float64")
        t.np_ = True
        return t

    def fn(self, name):
        return self.sc.get(W, name)

    # ------------------------------------------------------------ the model
    def hook(self, f, args, kwargs):
        if f.qual != "decomon.models.models:DecomonModel.predict_on_single_batch_np":
            return MISSING
        sc = self.sc
        z = args[1] if len(args) > 1 else kwargs["inputs"]
        C = None
        if self.back:
            if isinstance(z, T) or len(z) != 2:
                raise Prog("ValueError", "the model expects the boxes and the functions of the outputs to bound")
            z, C = z
            if C.a.shape[1:] != (self.n_out, self.n_out) or C.a.shape[0] != z.a.shape[0]:
                raise Prog("ValueError", f"the model expects {z.a.shape[0]} matrices of shape {(self.n_out, self.n_out)}, got {C.a.shape}")
        if not isinstance(z, T):
            raise Unsupported("several inputs of the model")
        a = z.a
        self.calls.append(args[0])
        if self.dom is None:
            if a.ndim != 3 or a.shape[1:] != (2, self.nin):
                raise Prog("ValueError", f"the model expects boxes of shape (None, 2, {self.nin}), got {a.shape}")
        elif a.shape[1:] != (self.nin,):
            raise Prog("ValueError", f"the model expects inputs of shape (None, {self.nin}), got {a.shape}")
        ibp, affine = sc.attr(args[0], "ibp"), sc.attr(args[0], "affine")
        mode = HYBRID if ibp and affine else IBP if ibp else AFFINE
        ds = []
        for k in range(a.shape[0]):
            ds.append(self.row(a[k], mode, None if C is None else C.a[k]))
        names = {HYBRID: ("u_c", "w_u", "b_u", "l_c", "w_l", "b_l"), IBP: ("u_c", "l_c"), AFFINE: ("w_u", "b_u", "w_l", "b_l")}[mode]
        outs = [] if mode == IBP else [T(a.copy(), "float32", True)]
        for nm in names:
            outs.append(T(np.stack([d[nm] for d in ds]) if ds else np.empty((0,), dtype=object), "float32", True))
        return outs

    def row(self, a, mode, C=None):
        sc = self.sc
        j = len(self.rows)
        if self.dom is None:
            r, al, be = self.locate(a)
            if r is None:
                self.stray = self.stray or f"row {j} of the model input: [{', '.join(alg.show(p, 4) for p in a.ravel())}]"
                x = a[0]
            else:
                x = arr((self.nin,), lambda i: a[0][i[0]] + const(be[i[0]] - al[i[0]]) * self.P[r, i[0]])
        else:
            r = next((r for r in range(self.n_x) if all(alg.is_zero(a[q] - self.X[r, q]) is True for q in range(self.nin))), None)
            al = be = None
            x = a
            if r is None:
                self.stray = self.stray or f"row {j} of the model input"
        # the same outputs each time the model is called on a box
        out = next((row[3].reshape(self.out) for row in self.rows if r is not None and row[:3] == (r, al, be)), None)
        if out is None:
            out = arr(self.out, lambda i: fresh(f"Y{j}{list(i)}"))
        Y = out
        if C is not None:  # functions of the outputs bounded
            Y = arr(self.out, lambda i: ten._fsum([out[q] * C[q, i[0]] for q in range(self.n_out)]))
        d = {"u_c": arr(self.out, lambda i: Y[i] + sc.slack(f"u{j}{list(i)}")), "l_c": arr(self.out, lambda i: Y[i] - sc.slack(f"l{j}{list(i)}"))}
        for s, sg in (("u", 1), ("l", -1)):
            w = arr((self.nin,) + self.out, lambda i: jordan(f"w{s}{j}{list(i)}"))
            d["w_" + s] = w
            d["b_" + s] = arr(self.out, lambda i: Y[i] + const(sg) * sc.slack(f"a{s}{j}{list(i)}") - ten._fsum([w[(q,) + i] * x[q] for q in range(self.nin)]))
        self.rows.append((r, al, be, out.ravel(), d, a))
        return d

    def locate(self, a):
        for r in range(self.n_x):
            al, be = [], []
            for q in range(self.nin):
                wd = self.P[r, q] + self.Q[r, q]
                v = [_ratio(a[s][q] - self.lo[r, q], wd) for s in (0, 1)]
                if v[0] is None or v[1] is None or not 0 <= v[0] <= v[1] <= self.n:
                    break
                al.append(v[0])
                be.append(v[1])
            else:
                return r, al, be
        return None, None, None

    # ------------------------------------------------------------ rules
    def covered(self, cons, what=""):
        """every box handed to the model is a part of a requested box, and the parts of each requested box cover it"""
        rec = self.rec
        if self.stray:
            rec.bad("sub-boxes", cons, f"{what}: the model is called outside of the requested boxes: {self.stray}")
            return False
        for r in range(self.n_x):
            parts = [(al, be) for q, al, be, *_ in self.rows if q == r]
            if self.dom is not None:
                rec.check(bool(parts), "one-result-per-box", cons, f"{what}: the model is not called on sample {r}")
                continue
            m = missing(parts, self.nin, self.n)
            rec.check(m is None, "cover", cons, f"{what}: part of box {r} around {m} of its width is in none of the {len(parts)} boxes handed to the model")
        return True

    def exact(self, diff):
        """the same values when every slack and width is zero"""
        ids = set(self.sc.slacks)
        for a in (self.P, self.Q):
            ids |= {next(iter(p.t))[0][0] for p in a.ravel()}
        return self.sc.drop_ids(diff, ids)


def _ratio(d, w):
    """k with d = k w"""
    if not d.t:
        return 0
    m = next(iter(w.t))
    k = d.t.get(m, 0) / w.t[m]
    if k and not (d - const(k) * w).t:
        return Fraction(k)
    return None


def missing(parts, nin, n):
    """a point of [0, n]^nin in no part"""
    axes = []
    for q in range(nin):
        cuts_ = sorted({Fraction(0), Fraction(n)} | {Fraction(al[q]) for al, _ in parts} | {Fraction(be[q]) for _, be in parts})
        axes.append([(a + b) / 2 for a, b in zip(cuts_, cuts_[1:])])
    for p in itertools.product(*axes):
        if not any(all(al[q] <= p[q] <= be[q] for q in range(nin)) for al, be in parts):
            return [float(v) / n for v in p]
    return None


def install_choices(sc, seq):
    """comparisons of widths that depend on the boxes: any outcome is possible, `seq` enumerates outcomes"""
    it = itertools.cycle(seq)
    sc.I.state.argmax = lambda n: next(it) % n
    sc.I.state.randint = lambda lo, hi=None: (next(it) % (lo if hi is None else hi - lo) + (0 if hi is None else lo)) if (lo if hi is None else hi - lo) > 0 else _low()


def _low():
    raise Prog("ValueError", "low >= high in randint")


# ---------------------------------------------------------------- expectations
def pairs(kind, n_x, n_out):
    """(value passed as source labels, as target labels, source set of each box, target set of each box)"""
    rows = [r % n_out for r in range(n_x)]
    rest = [[t for t in range(n_out) if t != s] for s in rows]
    nxt = [[(s + 1) % n_out] for s in rows]
    i64 = lambda a: _npint(a)
    if kind == "onehot":
        return i64([[int(j == s) for j in range(n_out)] for s in rows]), None, [[s] for s in rows], rest
    if kind == "onehot-target":
        return (i64([[int(j == s) for j in range(n_out)] for s in rows]), i64([[int(j in t) for j in range(n_out)] for t in nxt]),
                [[s] for s in rows], nxt)
    if kind == "masks":  # several sources
        src = [[s, (s + 1) % n_out] for s in rows]
        return i64([[int(j in s) for j in range(n_out)] for s in src]), None, src, [[t for t in range(n_out) if t not in s] for s in src]
    if kind == "int":
        return 1, None, [[1]] * n_x, [[t for t in range(n_out) if t != 1]] * n_x
    if kind == "int-target":
        return 1, 0, [[1]] * n_x, [[0]] * n_x
    if kind == "list":
        return list(rows), None, [[s] for s in rows], rest
    if kind == "indices":
        return i64(rows), i64([t[0] for t in nxt]), [[s] for s in rows], nxt
    raise KeyError(kind)


def _npint(a):
    t = ten.np_array(a)
    t.np_ = True
    return t


def result(rec, q, t, cons, shape, what):
    if not isinstance(t, T):
        rec.undecided("shapes", cons, "result is not an array")
        return None
    a = ten.raw(t)
    if a.shape != shape:
        rec.bad("shapes", cons, f"{what}: result of shape {a.shape} instead of {shape}", t.origin)
        return None
    return a


def vmax(ps):
    return alg.nmax(list(ps))


def sound_exact(rec, q, vals, wanted, cons, what, sign=1, origin=None):
    """vals[i] (sign) >= every wanted[i][j], and equal to their extremum when the model bounds are exact"""
    lower = [(v - w) * const(sign) for v, ws in zip(vals, wanted) for w in ws]
    t = tens(np.array(lower, dtype=object))
    t.origin = origin
    rec.nonneg(t, "sound", cons, what)
    ex = [v - (vmax(ws) if sign > 0 else -vmax([-w for w in ws])) for v, ws in zip(vals, wanted)]
    t = tens(q.exact(np.array(ex, dtype=object)))
    t.origin = origin
    bad = None
    for i in np.ndindex(t.a.shape):
        bad = bad or alg.refute_zero(t.a[i])
    if bad is not None:
        rec.bad("exact", cons, f"{what}: with exact bounds on a single point the result is off by {bad[1]:.4g} on an instance", origin)
    else:
        rec.ok("exact", cons, what)


def range_box(rec, mode, n_x, bs, n_sub, seq=(0,), out_shape=None, fname="get_range_box", nin=2, keras=False, x_shape=None):
    log2 = max(0, n_sub.bit_length() - 1)
    q = Query(rec, mode, n_x, nin=nin, log2=log2, out_shape=out_shape, n_out=int(np.prod(out_shape)) if out_shape else 2, keras=keras)
    install_choices(q.sc, seq)
    f = q.fn(fname)
    lo, hi = q.x("min"), q.x("max")
    if x_shape:
        lo, hi = [T(t.a.reshape((n_x,) + x_shape), t.dtype, True) for t in (lo, hi)]
    r = q.sc.call(f, q.model, lo, hi, batch_size=bs, n_sub_boxes=n_sub)
    cons = f.qual
    what = f"{mode} {n_x} boxes, batch_size {bs}, n_sub_boxes {n_sub}"
    if not q.covered(cons, what):
        return
    rs = [r] if fname != "get_range_box" else list(r)
    for t, sg in zip(rs, (1, -1) if fname != "get_lower_box" else (-1,)):
        a = result(rec, q, t, cons, (n_x,) + q.out, what)
        if a is None:
            continue
        vals, wanted = [], []
        for b in range(n_x):
            ys = [row[3] for row in q.rows if row[0] == b]
            for o, v in enumerate(a[b].ravel()):
                vals.append(v)
                wanted.append([y[o] for y in ys])
        sound_exact(rec, q, vals, wanted, cons, what + (" upper" if sg > 0 else " lower"), sg, t.origin)


def adv_box(rec, mode, n_x, bs, n_sub, labels, seq=(0,), nin=2, keras=False, out_shape=None, dom=None, eps=None, back=False):
    log2 = max(0, n_sub.bit_length() - 1)
    q = Query(rec, mode, n_x, nin=nin, log2=log2, keras=keras, dom=dom, out_shape=out_shape, back=back)
    install_choices(q.sc, seq)
    s, t, S, Ts = pairs(labels, n_x, q.n_out)
    kw = dict(source_labels=s, batch_size=bs)
    if t is not None:
        kw["target_labels"] = t
    f = q.fn("get_adv_box")
    r = q.sc.call(f, q.model, q.x("min"), q.x("max"), n_sub_boxes=n_sub, **kw)
    what = f"{mode} {n_x} boxes, batch_size {bs}, n_sub_boxes {n_sub}, labels {labels}"
    adv_result(rec, q, r, f.qual, what, S, Ts)


def adv_result(rec, q, r, cons, what, S, Ts):
    if not q.covered(cons, what):
        return
    a = result(rec, q, r, cons, (q.n_x,), what)
    if a is None:
        return
    wanted = [[row[3][t] - row[3][s] for row in q.rows if row[0] == b for t in Ts[b] for s in S[b]] for b in range(q.n_x)]
    sound_exact(rec, q, list(a), wanted, cons, what, 1, r.origin)


def check_adv(rec, mode, n_x, bs, labels, nin=2, keras=False, out_shape=None):
    q = Query(rec, mode, n_x, nin=nin, keras=keras, out_shape=out_shape)
    s, t, S, Ts = pairs(labels, n_x, q.n_out)
    kw = dict(source_labels=s, batch_size=bs)
    if t is not None:
        kw["target_labels"] = t
    f = q.fn("check_adv_box")
    r = q.sc.call(f, q.model, q.x("min"), q.x("max"), **kw)
    what = f"{mode} {n_x} boxes, batch_size {bs}, labels {labels}"
    cons = f.qual
    if not q.covered(cons, what):
        return
    a = result(rec, q, r, cons, (n_x,), what)
    if a is None:
        return
    low, ex = [], []
    for b in range(n_x):
        row = next(row for row in q.rows if row[0] == b)
        d = row[4]
        best = []
        for t_ in Ts[b]:
            for s_ in S[b]:
                if mode == IBP:
                    best.append(d["l_c"].ravel()[t_] - d["u_c"].ravel()[s_])
                else:
                    wl, wu = d["w_l"].reshape(nin, -1)[:, t_], d["w_u"].reshape(nin, -1)[:, s_]
                    v = d["b_l"].ravel()[t_] - d["b_u"].ravel()[s_]
                    for k in range(nin):
                        w = wl[k] - wu[k]
                        v = v + alg.pos(w) * row[5][1][k] - alg.pos(-w) * row[5][0][k]
                    best.append(v)
        low.append(vmax(best) - a[b])
        ex.append(vmax(best) - a[b])
    t = tens(np.array(low, dtype=object))
    t.origin = r.origin
    rec.nonneg(t, "attained", cons, what + ": not above the largest margin the bounds guarantee to be reached")
    bad = None
    for e in ex:
        bad = bad or alg.refute_zero(q.exact(np.array([e], dtype=object))[0])
    rec.check(bad is None, "exact", cons, f"{what}: with exact bounds on a single point the result is off by {bad and bad[1]}", r.origin)


def refine(rec, func, mode, n_x, n_split, random, seq, bs=-1, labels="onehot", nin=2):
    q = Query(rec, mode, n_x, nin=nin, log2=n_split - 1 if not random else n_split - 1)
    install_choices(q.sc, seq)
    f = q.fn("refine_box")
    kw = {}
    if "adv" in func:
        s, t, S, Ts = pairs(labels, n_x, q.n_out)
        kw = dict(source_labels=s, target_labels=t)
    r = q.sc.call(f, q.fn(func), q.model, q.x("min"), q.x("max"), n_split, batch_size=bs, random=random, **kw)
    what = f"{func} {mode} {n_x} boxes, n_split {n_split}{' random' if random else ''}, batch_size {bs}"
    cons = f.qual
    if "check" in func:
        q.covered(cons, what)
        result(rec, q, r, cons, (n_x,), what)
        return
    if "adv" in func:
        adv_result(rec, q, r, cons, what, S, Ts)
        return
    if not q.covered(cons, what):
        return
    rs = [r] if func != "get_range_box" else list(r)
    for t, sg in zip(rs, (1, -1) if func != "get_lower_box" else (-1,)):
        a = result(rec, q, t, cons, (n_x, q.n_out), what)
        if a is None:
            continue
        vals = list(a.ravel())
        wanted = [[row[3][o] for row in q.rows if row[0] == b] for b in range(n_x) for o in range(q.n_out)]
        sound_exact(rec, q, vals, wanted, cons, what + (" upper" if sg > 0 else " lower"), sg, t.origin)


DOMS = {"ballinf": (float("inf"), 0.5), "ball2": (2, 0.5), "ball1": (1, 0.5)}


def noise(rec, mode, n_x, bs, dom, given, fname="get_range_noise", keras=False, out_shape=None, labels=None):
    """`given`: radius passed to the query; the model was converted with radius 0.5"""
    p, eps0 = DOMS[dom]
    q = Query(rec, mode, n_x, dom=(p, eps0), keras=keras, out_shape=out_shape, n_out=int(np.prod(out_shape)) if out_shape else (3 if labels else 2))
    sc = q.sc
    f = q.fn(fname)
    kw = dict(eps=given, batch_size=bs)
    if given >= 0 or keras:
        kw["p"] = p
    eps = (max(given, 0) if keras or given >= 0 else eps0)
    if labels:
        s, t, S, Ts = pairs(labels, n_x, q.n_out)
        kw["source_labels"] = s
        if t is not None:
            kw["target_labels"] = t
    r = sc.call(f, q.model, q.x("x"), **kw)
    cons = f.qual
    what = f"{mode} {dom} radius {eps} {n_x} samples, batch_size {bs}"
    if not q.covered(cons, what):
        return
    for m in q.calls:
        D = sc.attr(m, "perturbation_domain")
        ok = D.cls.name == "BallDomain" and sc.attr(D, "p") == p and sc.attr(D, "eps") == eps
        rec.check(ok, "domain", cons, f"{what}: the model is called with the domain p={sc.attr(D, 'p')}, eps={sc.attr(D, 'eps')}")
    D = sc.call(sc.core.d["BallDomain"], p=p, eps=eps)
    m0 = q.calls[0]
    ibp, affine = sc.attr(m0, "ibp"), sc.attr(m0, "affine")
    if labels:
        a = result(rec, q, r, cons, (n_x,), what)
        if a is None:
            return
        sound_, ex, zero_ = [], [], []
        for b in range(n_x):
            d = next(row for row in q.rows if row[0] == b)[4]
            w = {k: v.reshape((2, -1) if k[0] == "w" else (-1,)) for k, v in d.items()}
            per_i = [w["u_c"][t_] - w["l_c"][s_] for t_ in Ts[b] for s_ in S[b]]
            per_a = [extremum(sc, D, "get_upper", q.X[b], w["w_u"][:, t_] - w["w_l"][:, s_], w["b_u"][t_] - w["b_l"][s_]) for t_ in Ts[b] for s_ in S[b]]
            best = [vmax(p_) for p_, on in ((per_i, ibp), (per_a, affine)) if on]
            target = best[0] if len(best) == 1 else -vmax([-x for x in best])
            zero_.append(a[b] - target)
        t = tens(np.array(zero_, dtype=object))
        t.origin = r.origin
        rec.zero(t, "largest-margin", cons, what)
        return
    rs = list(r) if fname == "get_range_noise" else [r]
    for t, g, k in zip(rs, ("get_upper", "get_lower") if fname != "get_lower_noise" else ("get_lower",), "ul" if fname != "get_lower_noise" else "l"):
        a = result(rec, q, t, cons, (n_x,) + q.out, what)
        if a is None:
            continue
        out = []
        for b in range(n_x):
            d = next(row for row in q.rows if row[0] == b)[4]
            for o, v in enumerate(a[b].ravel()):
                c = []
                if ibp:
                    c.append(d[k + "_c"].ravel()[o])
                if affine:
                    c.append(extremum(sc, D, g, q.X[b], d["w_" + k].reshape(2, -1)[:, o], d["b_" + k].ravel()[o]))
                best = c[0] if len(c) == 1 else (-vmax([-x for x in c]) if k == "u" else vmax(c))
                out.append(v - best)
        z = tens(np.array(out, dtype=object))
        z.origin = t.origin
        rec.zero(z, "extremum", cons, f"{what} {g}")


def extremum(sc, D, g, x, w, b):
    """extremum over the ball (domains are decided by P07)"""
    n = len(w)
    X = tens(np.array(list(x), dtype=object).reshape(1, n))
    Wt = tens(np.array(list(w), dtype=object).reshape(1, n, 1))
    B = tens(np.array([b], dtype=object).reshape(1, 1))
    return ten.raw(sc.call(sc.attr(D, g), X, Wt, B)).ravel()[0]
