"""Queries tuning the relaxations."""
from props.queries import *
from props.survey import *

EXPLANATION = (
    "get_upper_box_tuning and get_lower_box_tuning are interpreted on a converted model with tunable relaxations, training being replaced by an "
    "arbitrary change of every variable then trainable, and predictions by arbitrary sound bounds of an arbitrary output, one for each box and state of "
    "the parameters. No variable of the network may be trained (rule frozen). The boxes trained on must be the requested ones with one target each, their "
    "untuned bound (rule trained), for a loss that gets lower when the bound asked for gets tighter and reads no other (rule loss), with the learning "
    "rate and number of epochs asked for. There is one result per requested box; it bounds the outputs over the box (rule sound), and is at least as tight as the untuned "
    "bound and as the tuned one (rule no-looser). The parameters of the model have their values at conversion in the end (rule reset)."
)
H = "props.p32"
ASSUMPTIONS = [
    "the bounds returned by the converted model are sound for all admissible parameters (P14, P17)",
    "training changes the trainable variables of the trained model and no other",
    "real arithmetic; networks, conversion methods, numbers of boxes, batches and sub-boxes are enumerated, corners and bounds are unconstrained",
]
LIMIT = {"quick": 120, "thorough": 600}
T_ = "decomon.wrapper_with_tuning"
FUNCS = ("get_upper_box_tuning", "get_lower_box_tuning")


def obligations(tier):
    deep = tier == "deep"
    out = []
    for fname in FUNCS:
        for method in METHODS:
            if method == "forward-ibp":
                continue
            for mode in MODES:
                if not deep and method not in ("crown", "forward-hybrid") and mode != HYBRID:
                    continue
                out.append((f"{fname}/{method}/{mode}", H, "tuned", fname, "relu", method, mode, 2, -1, 1))
        for n_x, bs in ((1, 1), (2, 1), (3, 2), (2, 2), (2, 5), (4, 3), (3, 3)):
            for n_sub in (1, 2) if n_x < 4 else (1,):
                for mode in (IBP, AFFINE) if not deep else MODES:
                    out.append((f"{fname}/n{n_x}/batch{bs}/sub{n_sub}/{mode}", H, "tuned", fname, "relu", "crown", mode, n_x, bs, n_sub))
        for n_sub in (3, 4) + ((8,) if deep else ()):
            for bs in (-1, 1, 3):
                out.append((f"{fname}/n2/batch{bs}/sub{n_sub}", H, "tuned", fname, "relu", "crown-forward-hybrid", IBP, 2, bs, n_sub, (0, 1, 1)))
        for kind in ("softplus", "bn", "twice", "nested"):
            out.append((f"{fname}/{kind}", H, "tuned", fname, kind, "crown", IBP, 2, 2, 1))
            out.append((f"{fname}/{kind}/forward", H, "tuned", fname, kind, "forward-hybrid", HYBRID, 2, -1, 1))
        out.append((f"{fname}/plain", H, "tuned", fname, "relu", "crown", IBP, 2, -1, 1, (0,), False))
        out.append((f"{fname}/twice-in-a-row", H, "tuned", fname, "relu", "crown", IBP, 3, 2, 1, (0,), True, 2))
    return out


class Tuned(Query):
    def __init__(self, rec, kind, method, mode, n_x, log2, finetune=True):
        from props.p18 import initial

        self.rec, self.mode, self.n_x, self.nin = rec, mode, n_x, nin_of(kind)
        alg.NARY[0] = True
        nin = self.nin
        self.sc = sc = Scene(rec, nin, 1)
        self.n = 2 ** log2
        self.net = Net(sc, kind)
        self.kmodel = self.net.model
        initial(sc)
        self.dom, self.domain = None, sc.box()
        self.model = sc.call(sc.get("decomon.models", "clone"), self.kmodel, method=method, finetune=finetune, final_ibp=mode != AFFINE, final_affine=mode != IBP)
        self.concat = sc.call(sc.get("decomon.metrics.loss", "get_model"), self.model)
        theirs = list(sc.attr(self.kmodel, "weights"))
        self.vars = list(sc.attr(self.model, "weights"))
        self.start = [v.a.copy() for v in self.vars]
        # parameters of the network: same contents as one of its variables
        self.theirs = [v for v in self.vars if any(v is w or same(v.a, w.a) for w in theirs)]
        self.out = tuple(sc.attr(self.model, "outputs")[-1].a.shape[1:])
        self.n_out = int(np.prod(self.out))
        self.rows, self.calls, self.fits, self.bounds_of, self.ghosts = [], [], [], {}, {}
        self.stray = None
        self.compiled = None
        self.states = [self.start]
        self.X = arr((n_x, nin), lambda i: fresh(f"X{list(i)}"))
        self.P = arr((n_x, nin), lambda i: fresh(f"P{list(i)}", "0+"))
        self.Q = arr((n_x, nin), lambda i: fresh(f"Q{list(i)}", "0+"))
        self.lo = self.X - self.P * const(self.n)
        self.hi = self.X + self.Q * const(self.n)
        sc.I.hooks.append(self.hook)
        sc.I.state.event_hook = self.event

    def state(self):
        for k, s in enumerate(self.states):
            if all(same(v.a, a) for v, a in zip(self.vars, s)):
                return k
        self.states.append([v.a.copy() for v in self.vars])
        return len(self.states) - 1

    def row(self, a, mode, C=None):
        r, al, be = self.locate(a)
        if r is None:
            return super().row(a, mode)
        k = (r, str(al), str(be))
        s = (k, self.state())
        n = len(self.rows)
        if s not in self.bounds_of:
            d = super().row(a, mode)
            Y = self.rows[-1][3]
            if k in self.ghosts:  # same output, other bounds
                Y0, off = self.ghosts[k], None
                off = (Y0 - Y).reshape(self.out)
                for name in ("u_c", "l_c", "b_u", "b_l"):
                    d[name] = d[name] + off
                Y = Y0
            self.ghosts[k] = Y
            self.bounds_of[s] = (d, Y)
        d, Y = self.bounds_of[s]
        del self.rows[n:]
        self.rows.append((r, al, be, Y, d, a, s[1]))
        return d

    # ------------------------------------------------------------ training
    def event(self, kind, model, args, kwargs):
        if kind == "compile":
            names = ("optimizer", "loss")
            kw = dict(zip(names, args)) | dict(kwargs)
            self.compiled = kw
            return
        if kind != "fit":
            return
        kw = dict(zip(("x", "y", "batch_size", "epochs", "verbose"), args)) | dict(kwargs)
        trained = list(self.sc.attr(model, "trainable_weights"))
        self.fits.append((model, kw, self.compiled, trained))
        for v in trained:
            for i in np.ndindex(v.a.shape):
                v.a[i] = fresh(f"trained{len(self.fits)}")


def same(a, b):
    return a.shape == b.shape and all(alg.is_zero(a[i] - b[i]) is True for i in np.ndindex(a.shape))


def rows_of(z):
    return z.a if isinstance(z, T) else None


def tuned(rec, fname, kind, method, mode, n_x, bs, n_sub, seq=(0,), finetune=True, times=1):
    log2 = max(0, n_sub.bit_length() - 1)
    q = Tuned(rec, kind, method, mode, n_x, log2, finetune)
    sc = q.sc
    install_choices(sc, seq)
    f = sc.get(T_, fname)
    base = sc.get(W, fname.removesuffix("_tuning"))
    cons = f.qual
    sg = 1 if "upper" in fname else -1
    what = f"{kind} {method} {mode} {n_x} boxes, batch_size {bs}, n_sub_boxes {n_sub}"
    lr, epochs = Fraction(3, 8), 7
    b = sc.call(base, q.model, q.x("min"), q.x("max"), batch_size=-1, n_sub_boxes=n_sub)
    for t in range(times):
        del q.rows[:], q.fits[:]
        install_choices(sc, seq)
        r = sc.call(f, q.model, q.concat, q.x("min"), q.x("max"), batch_size=bs, n_sub_boxes=n_sub, lr=float(lr), epochs=epochs)
        one(rec, q, r, b, f, cons, sg, what, lr, epochs, finetune)


def one(rec, q, r, b, f, cons, sg, what, lr, epochs, finetune):
    sc = q.sc
    if not q.covered(cons, what):
        return
    # parameters afterwards
    for v, a in zip(q.vars, q.start):
        net = any(v is w for w in q.theirs)
        rec.check(same(v.a, a), "frozen" if net else "reset", cons, f"{what}: variable {v.name} {'of the network has been trained' if net else 'keeps the value training gave it'}")
    # training
    if not q.fits:
        rec.bad("trained", cons, f"{what}: nothing is trained")
        return
    parts = {}
    for m, kw, comp, trained in q.fits:
        for v in trained:
            rec.check(not any(v is w for w in q.theirs), "frozen", cons, f"{what}: variable {v.name} of the network is trained")
        if finetune and not trained:
            rec.bad("trained", cons, f"{what}: no variable is trained")
        z, y = kw.get("x"), kw.get("y")
        if not isinstance(z, T) or not isinstance(y, T) or comp is None:
            rec.undecided("trained", cons, f"{what}: arguments of fit")
            continue
        if z.a.shape[0] != y.a.shape[0]:
            rec.bad("trained", cons, f"{what}: fit is called on {z.a.shape[0]} boxes and {y.a.shape[0]} targets")
            continue
        rec.check(kw.get("epochs", 1) == epochs, "trained", cons, f"{what}: {kw.get('epochs')} epochs instead of {epochs}")
        opt = comp.get("optimizer")
        if isinstance(opt, Obj):
            got = opt.d.get("learning_rate")
            rec.check(got == float(lr), "trained", cons, f"{what}: learning rate {got} instead of {float(lr)}")
        for k in range(z.a.shape[0]):
            rr, al, be = q.locate(z.a[k])
            if rr is None:
                rec.bad("trained", cons, f"{what}: trained on a box which was not asked for")
                continue
            key = (rr, str(al), str(be))
            d = q.bounds_of.get((key, 0))
            if d is None:
                rec.undecided("trained", cons, f"{what}: target of box {rr}")
                continue
            parts.setdefault(rr, set()).add(key)
            want = best(q, d[0], z.a[k], sg)
            rec.zero(tens(y.a[k].reshape(q.out) - want), "trained", cons, f"{what}: the target of box {rr} is not its untuned bound")
        loss(rec, q, comp.get("loss"), cons, sg, what, y)
    a = result(rec, q, r, cons, (q.n_x,) + q.out, what)
    if a is None:
        return
    base = ten.raw(b)
    for k in range(q.n_x):
        ys = [row for row in q.rows if row[0] == k]
        lowest, tight = [], []
        for o in np.ndindex(q.out):
            for row in ys:
                lowest.append((a[k][o] - row[3].reshape(q.out)[o]) * const(sg))
            tight.append((base[k][o] - a[k][o]) * const(sg))
            # the tuned bounds of the parts of the box
            after = {}
            for row in ys:
                if row[6] != 0:
                    after[(row[0], str(row[1]), str(row[2]))] = best(q, row[4], row[5], sg)[o]
            if finetune and after and len(after) == len({(str(r_[1]), str(r_[2])) for r_ in ys}):
                top = vmax([v * const(sg) for v in after.values()])
                tight.append(top - a[k][o] * const(sg))
            elif finetune:
                rec.bad("no-looser", cons, f"{what}: box {k} is not evaluated again once the parameters are tuned")
        rec.nonneg(tens(np.array(lowest, dtype=object)), "sound", cons, what)
        rec.nonneg(tens(np.array(tight, dtype=object)), "no-looser", cons, what)


def best(q, d, z, sg):
    """tightest bound on the box z"""
    s = "u" if sg > 0 else "l"
    c = None if q.mode == AFFINE else d[s + "_c"].reshape(q.out)
    if q.mode == IBP:
        return c
    w, b = d["w_" + s], d["b_" + s]

    def at(i):
        v = b[i]
        for k in range(q.nin):
            p, n = alg.pos(w[(k,) + i]), alg.pos(-w[(k,) + i])
            hi, lo = (z[1][k], z[0][k]) if sg > 0 else (z[0][k], z[1][k])
            v = v + p * hi - n * lo
        return v

    f = arr(q.out, at)
    if c is None:
        return f
    return arr(q.out, lambda i: -alg.nmax([-c[i], -f[i]]) if sg > 0 else alg.nmax([c[i], f[i]]))


def loss(rec, q, f, cons, sg, what, y):
    """the loss gets lower with the bound asked for, and reads no other"""
    if f is None or isinstance(f, str):
        rec.bad("loss", cons, f"{what}: trained for the loss {f}")
        return
    sc = q.sc
    B, n = 1, q.n_out
    d, Z = {}, tens(np.stack([[q.lo[0], q.hi[0]]]))
    for k in ("u", "l"):
        d[k + "_c"] = tens(arr((B, n), lambda i: fresh(f"{k}c{list(i)}")))
        d["w_" + k] = tens(arr((B, q.nin, n), lambda i: jordan(f"w{k}{list(i)}")))
        d["b_" + k] = tens(arr((B, n), lambda i: fresh(f"b{k}{list(i)}")))
    ref = tens(arr((B, n), lambda i: fresh(f"ref{list(i)}")))

    def value(dd):
        outs = sc.pack(dd, q.mode, Z)
        lam = [l for l in sc.attr(q.concat, "layers")][-1]
        return sc.call(f, ref, sc.call(lam, outs))

    v0 = ten.raw(value(d))
    mine, other = ("u", "l") if sg > 0 else ("l", "u")
    # any other bounds on the other side
    d1 = dict(d)
    for k in (other + "_c", "b_" + other):
        d1[k] = tens(arr(ten.raw(d[k]).shape, lambda i: fresh(f"other{k}{list(i)}")))
    d1["w_" + other] = tens(arr((B, q.nin, n), lambda i: jordan(f"otherw{list(i)}")))
    rec.zero(tens(ten.raw(value(d1)) - v0), "loss", cons, f"{what}: the loss depends on the other bound")
    # bounds tighter by an arbitrary amount
    d2 = dict(d)
    s = [fresh(f"gain{i}", "0+") for i in range(n)]
    for k in (mine + "_c", "b_" + mine):
        d2[k] = tens(arr((B, n), lambda i: ten.raw(d[k])[i] - const(sg) * s[i[1]]))
    rec.nonneg(tens(v0 - ten.raw(value(d2))), "loss", cons, f"{what}: the loss gets higher when the bound is tighter")
    # all bounds tighter by the same amount
    d3 = dict(d)
    g = fresh("gain", "0+")
    for k in (mine + "_c", "b_" + mine):
        d3[k] = tens(arr((B, n), lambda i: ten.raw(d[k])[i] - const(sg) * g))
    rec.zero(tens(v0 - ten.raw(value(d3)) - g), "loss", cons, f"{what}: the loss does not follow the bound")
