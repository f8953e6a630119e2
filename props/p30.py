"""Difference-of-convex decompositions propagated along the bounds."""
from fractions import Fraction

from sa import alg
from sa.alg import ZERO, const, fresh
from sa.interp import Env, MISSING
from sa.scen import *
from props.p01 import keras_layer, layer_cases
from props.p12 import keras_merge
from props import p02, p05, p06
from props.survey import qual_of
from props.prims import SPEC, install

EXPLANATION = (
    "Layers and operations are interpreted with dc_decomp=True on bounds enclosing a ghost value y and two tensors h + g = y, h convex and g "
    "concave. What is returned must have two more tensors than the mode, whose sum is the value the Keras layer or the operation computes on y (rule "
    "sum); h must be a convex nondecreasing function of the given h and -g and g the opposite of one, which keeps h convex and g concave (rules "
    "grows, convex, judged on two more interpretations of the code, at a greater pair and half-way); the bounds returned must be sound (rule sound). "
    "What does not propagate decompositions must refuse them (NotImplementedError), never return bounds without them."
)
H = "props.p30"
ASSUMPTIONS = [
    "Keras layers and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "shapes and options are enumerated; bounds, decompositions and weights are unconstrained",
    "the tightening of the constant bounds by the decomposition is the subject of P08, not of this property",
]
LIMIT = {"quick": 100, "thorough": 600}
ACTS = ("relu", "linear", "sigmoid", "tanh", "softplus", "softsign", "exponential", "softmax", "elu", "selu")
DC_OPS = ("add", "subtract", "minus", "maximum", "minimum", "relu_", "max_", "min_", "multiply", "sum", "expand_dims", "sort", "split", "permute_dimensions", "broadcast", "pow", "abs")


def obligations(tier):
    out = []
    deep = tier == "deep"
    for name, shape, spec in layer_cases(tier):
        if not deep and np.prod(shape) > 12:
            continue
        for mode in MODES:
            out.append((f"layer/{name}/{mode}", H, "layer", name, shape, spec, mode))
    for a in ACTS:
        for mode in MODES:
            for k in range(4):
                if a == "relu" or k == 2:
                    out.append((f"activation/{a}/{k}/{mode}", H, "activation", a, k, mode))
    for n, sh, kw in p06.cases(tier):
        for mode in MODES:
            for fast in (True, False):
                out.append((f"pool/{n}/{'fast' if fast else 'exact'}/{mode}", H, "pool", n, sh, kw, mode, fast))
    for oid, name, kw, shapes, full in p02.cases(tier):
        for mode in MODES:
            if not full:
                out.append((f"merge/{oid}/{mode}", H, "merge", name, kw, shapes, mode))
    for c in p05.CASES:
        if c[1].split(":")[1] in DC_OPS and not c[0].startswith("relu_"):
            for mode in MODES:
                out.append((f"op/{c[0]}/{mode}", H, "op", c[0], mode))
    for mode in MODES:
        for which in REGIONS:
            out.append((f"op/relu_/{which.replace(', ', '-')}/{mode}", H, "relu", which, mode))
    return out


SIZE = {HYBRID: 9, IBP: 4, AFFINE: 7}


class Dc:
    """decompositions of ghosts, in five runs: 0 sums to the ghost, 1 is greater and 2 is half-way (or under, once convex functions have been
    applied), 3 is anywhere and 4 half-way to it"""

    def __init__(self, sc):
        self.sc = sc
        self.k = 0
        self.calls = {}
        self.seen = {}

    def of(self, y, slack=False):
        Y = ten.raw(y)
        half = const(Fraction(1, 2))
        pos = lambda n: arr(Y.shape, lambda i: fresh(n, "0+"))
        some = lambda n: arr(Y.shape, lambda i: fresh(n))
        h = arr(Y.shape, lambda i: fresh(f"h{list(i)}"))
        k = arr(Y.shape, lambda i: h[i] - Y[i])  # -g
        s, t, v, z = pos("dh"), pos("dk"), some("vh"), some("vk")
        hk = [(h, k), (h + s, k + t), (h + s * half, k + t * half), (h + v, k + z), (h + v * half, k + z * half)]
        if slack:
            for j in (2, 4):
                hk[j] = (hk[j][0] - pos("ch"), hk[j][1] - pos("ck"))
        return [[tens(a), tens(-b)] for a, b in hk]

    def contract(self, *names):
        """primitives called with decompositions: replaced by their specification, which is judged here as well"""
        sc = self.sc
        quals = {q: f for q, f in SPEC.items() if q.split(":")[1] in names}
        install(sc, *names)

        def hook(f, args, kwargs):
            if f.qual not in quals:
                return MISSING
            env = Env(f.env, f.module, f, {})
            sc.I.bind_args(f, env, args, kwargs)
            a = env.vars
            m = a.get("mode")
            mode = m if isinstance(m, str) else str(sc.attr(m, "value"))
            if not a.get("dc_decomp"):
                return MISSING
            ins = [v for v in a.values() if isinstance(v, (list, tuple)) and v and all(isinstance(t, T) for t in v)]
            if any(len(i) != SIZE[mode] for i in ins):
                return MISSING  # interpreted: it cannot make anything of them
            if sc.symbolic:  # symbolic call building the layer: only shapes matter
                out = quals[f.qual](sc, a, [sc.symbolic_ghost(list(i)[:-2], mode) for i in ins])
                return sc.pack(sc.bounds(out), mode, None if mode == IBP else list(ins[0])[0]) + [tens(ten.raw(out)), tens(ten.raw(out))]
            ys = [sc.ghost_of(list(i)[:-2], mode) for i in ins]
            if any(y is None for y in ys):
                raise Unsupported(f"bounds given to {f.qual} enclose no known value")
            key = self.calls.setdefault(self.k, 0)
            self.calls[self.k] += 1
            given = [(ten.raw(list(i)[-2]), ten.raw(list(i)[-1])) for i in ins]
            if self.k == 0:
                out = quals[f.qual](sc, a, ys)
                sc.ncontract = getattr(sc, "ncontract", 0) + 1
                d = sc.bounds(out, f"c{sc.ncontract}.")
                for (h, g), y in zip(given, ys):
                    zero(sc.rec, h + g - ten.raw(y), "sum", f.qual, "h + g is not the operand it is given", list(ins[0])[-2].origin)
                self.seen[key] = (f.qual, [given], d, self.of(out, slack=True))
            if key not in self.seen or self.seen[key][0] != f.qual:
                raise Unsupported(f"calls to {f.qual} depend on the decomposition")
            _, prev, d, dcs = self.seen[key]
            if self.k:
                prev.append(given)
                if self.k in (1, 2, 4):
                    for j, (h, g) in enumerate(given):
                        h0, g0 = prev[0][j]
                        if self.k == 1:
                            above(sc.rec, h - h0, "grows", f.qual, "the convex part it is given does not grow", list(ins[0])[-2].origin)
                            above(sc.rec, g0 - g, "grows", f.qual, "the concave part it is given does not decrease", list(ins[0])[-1].origin)
                        else:
                            h1, g1 = prev[self.k - 1][j]
                            two = const(2)
                            above(sc.rec, h0 + h1 - h * two, "convex", f.qual, "the convex part it is given is not convex", list(ins[0])[-2].origin)
                            above(sc.rec, g * two - g0 - g1, "convex", f.qual, "the concave part it is given is not concave", list(ins[0])[-1].origin)
            return sc.pack(d, mode, None if mode == IBP else list(ins[0])[0]) + [sc.fresh(t) for t in dcs[self.k]]

        sc.I.hooks.append(hook)


def region(sc, L, U):
    """concretised bounds of the value: the given interval (how they are computed is P08)"""
    q = "decomon.core:InputsOutputsSpec.get_fullinputs_from_inputsformode"
    busy = []

    def hook(f, args, kwargs):
        if f.qual != q or busy:
            return MISSING
        busy.append(1)
        try:
            r = list(sc.I.call(f, args, kwargs))
        finally:
            busy.pop()
        for k, v in ((1, U), (4, L)):
            if isinstance(r[k], T):
                r[k] = tens(arr(ten.raw(r[k]).shape, lambda i: v))
        return r

    sc.I.hooks.append(hook)


def zero(rec, a, rule, cons, what, origin=None):
    t = tens(a)
    t.origin = origin
    rec.zero(t, rule, cons, what)


def above(rec, a, rule, cons, what, origin=None):
    t = tens(a)
    t.origin = origin
    rec.nonneg(t, rule, cons, what)


def judge_dc(rec, sc, cons, what, run, n, mode, target, refusals=("NotImplementedError",)):
    """run(k) gives the outputs for the k-th decomposition"""
    try:
        outs = run(0)
    except AbsRaise as e:
        if e.typename() in refusals:
            rec.ok("refused", cons, f"{what}: {e.typename()}")
            return
        raise
    outs = list(outs)
    want = SIZE[mode]
    if len(outs) != want:
        rec.bad("tensor-count", cons, f"{what}: {len(outs)} tensors with dc_decomp in mode {mode}, {want} expected")
        return
    sc.check_bounds(outs[:-2], mode, target, cons, what)
    h, g = ten.raw(outs[-2]), ten.raw(outs[-1])
    Y = ten.raw(target)
    if h.shape != Y.shape or g.shape != Y.shape:
        rec.bad("shapes", cons, f"{what}: h {h.shape} and g {g.shape} for an output of shape {Y.shape}", outs[-2].origin)
        return
    zero(rec, h + g - Y, "sum", cons, f"{what}: h + g is not the output", outs[-2].origin)
    more = [[ten.raw(t) for t in list(run(k))[-2:]] for k in range(1, n)]
    if any(a.shape != Y.shape or b.shape != Y.shape for a, b in more):
        rec.undecided("convex", cons, f"{what}: shapes depend on the decomposition")
        return
    (hu, gu), (hm, gm), (hv, gv), (hn, gn) = more
    above(rec, hu - h, "grows", cons, f"{what}: h does not grow with the convex parts", outs[-2].origin)
    above(rec, g - gu, "grows", cons, f"{what}: -g does not grow with the convex parts", outs[-1].origin)
    two = const(2)
    above(rec, hu + h - hm * two, "convex", cons, f"{what}: h is not convex", outs[-2].origin)
    above(rec, gm * two - gu - g, "convex", cons, f"{what}: g is not concave", outs[-1].origin)
    above(rec, hv + h - hn * two, "convex", cons, f"{what}: h is not convex", outs[-2].origin)
    above(rec, gn * two - gv - g, "convex", cons, f"{what}: g is not concave", outs[-1].origin)


def make(sc, lay, mode, **kw):
    """the Decomon counterpart of a Keras layer, with decompositions"""
    f = sc.get("decomon.layers.convert", "to_decomon")
    return sc.call(f, lay, sc.nin, perturbation_domain=sc.box(), ibp=mode != AFFINE, affine=mode != IBP, dc_decomp=True, **kw)


def single(rec, sc, lay, y, mode, what, refusals=("NotImplementedError",), bounds=None, callees=(), **kw):
    target = sc.call(lay, y)
    d = bounds or sc.bounds(y)
    cons = "decomon.layers.convert:to_decomon"
    dc = Dc(sc)
    if callees:
        dc.contract(*callees)
    try:
        sc.symbolic = True
        dl = make(sc, lay, mode, **kw)
    except AbsRaise as e:
        if e.typename() in refusals:
            rec.ok("refused", cons, f"{what}: {e.typename()}")
            return
        raise
    finally:
        sc.symbolic = False
    dcs = dc.of(y)

    def run(k):
        dc.k = k
        return sc.call(dl, sc.pack(d, mode) + [sc.fresh(t) for t in dcs[k]])

    judge_dc(rec, sc, qual_of(dl), what, run, 5, mode, target)


def layer(rec, name, shape, spec, mode):
    sc = Scene(rec, 1, 1)
    single(rec, sc, keras_layer(sc, spec, shape), sc.ghost(shape), mode, name)


def activation(rec, name, k, mode):
    sc = Scene(rec, 1, 1)
    lay = keras_layer(sc, ("Activation", (name,), {}), (1,))
    y, d = inside(sc, REGIONS[k])
    shaped(sc)
    single(rec, sc, lay, y, mode, f"{name} on {REGIONS[k]} values", bounds=d)


def shaped(sc):
    """hulls of s-shaped functions: any lines (their soundness is P03)"""
    hull = lambda like: [sc.fresh(tens(arr(ten.raw(like).shape, lambda i: fresh(n)))) for n in ("hwu", "hbu", "hwl", "hbl")]
    sc.I.hooks.append(lambda f, args, kwargs: hull(list(args[0])[-1]) if f.qual == "decomon.utils:get_linear_hull_s_shape" else MISSING)


def pool(rec, name, sh, kw, mode, fast):
    sc = Scene(rec, 1, 1)
    single(rec, sc, keras_layer(sc, ("MaxPooling2D", (), kw), sh), sc.ghost(sh), mode, f"pooling {name}", callees=("max_",), fast=fast)


def merge(rec, name, kw, shapes, mode):
    sc = Scene(rec, 1, 1)
    lay = keras_merge(sc, name, shapes, **kw)
    ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
    target = sc.call(lay, ys)
    ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    cls = sc.get("decomon.layers.decomon_merge_layers", "Decomon" + name)
    cons = qual = f"{cls.module.name}:{cls.name}"
    try:
        dl = sc.call(cls, mode=sc.mode(mode), perturbation_domain=sc.box(), dc_decomp=True, **kw)
    except AbsRaise as e:
        if e.typename() != "NotImplementedError":
            raise
        rec.ok("refused", cons, name)
        return
    dc = Dc(sc)
    dc.contract("maximum", "minimum", "add", "subtract")
    dcs = [dc.of(y) for y in ys]
    x = sc.x_box()

    def run(k):
        dc.k = k
        return sc.call(dl, [t for d, p in zip(ds, dcs) for t in sc.pack(d, mode, x) + [sc.fresh(t) for t in p[k]]])

    judge_dc(rec, sc, cons, f"{name}{kw or ''} {shapes}", run, 5, mode, target)


def op(rec, cid, mode):
    _, q, shapes, kw, callees, exact = next(c for c in p05.CASES if c[0] == cid)
    alg.NARY[0] = "max_" in q
    sc = Scene(rec, 1, 1)
    mod, name = q.split(":")
    f = sc.get(mod, name)
    dc = Dc(sc)
    ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
    target = p05.target_of(sc, q, ys, kw)
    ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    dcs = [dc.of(y) for y in ys]
    x = sc.x_box()
    if callees:
        dc.contract(*callees)

    def run(k):
        dc.k = k
        ins = [sc.pack(d, mode, x) + [sc.fresh(t) for t in p[k]] for d, p in zip(ds, dcs)]
        return sc.call(f, *ins, mode=sc.mode(mode), perturbation_domain=sc.box(), dc_decomp=True, **kw)

    if name == "split":
        try:
            run(0)
        except AbsRaise as e:
            if e.typename() != "NotImplementedError":
                raise
            rec.ok("refused", q, name)
            return
        for j, t in enumerate(target):
            dc.calls.clear()
            judge_dc(rec, sc, q, f"{name} {kw}", lambda k: run(k)[j], 5, mode, t)
        return
    judge_dc(rec, sc, q, f"{name} {kw or ''}", run, 5, mode, target)


def relu(rec, which, mode):
    """relu_ on an interval"""
    sc = Scene(rec, 1, 1)
    q = "decomon.utils:relu_"
    f = sc.get("decomon.utils", "relu_")
    y, d = inside(sc, which)
    target = sc.call(sc.mod("keras.ops").d["relu"], y)
    dc = Dc(sc)
    dcs = dc.of(y)

    def run(k):
        return sc.call(f, sc.pack(d, mode) + [sc.fresh(t) for t in dcs[k]], mode=sc.mode(mode), perturbation_domain=sc.box(), dc_decomp=True)

    judge_dc(rec, sc, q, f"relu_ on {which} values", run, 5, mode, target)


REGIONS = ("alive", "dead", "crossing, positive", "crossing, negative")


def inside(sc, which):
    """a value, an interval it belongs to as bounds, and lines on both sides of its positive part"""
    t = lambda n: fresh(n, "+")
    y = {"alive": t("y"), "dead": -t("y"), "crossing, positive": t("y"), "crossing, negative": -t("y")}[which]
    U = t("U") if which == "crossing, negative" else ZERO if which == "dead" else y + fresh("dU", "0+")
    L = -t("L") if which == "crossing, positive" else ZERO if which == "alive" else y - fresh("dL", "0+")
    Y = tens(arr((1, 1), lambda i: y))
    d = sc.bounds(Y)
    d["u_c"], d["l_c"] = tens(arr((1, 1), lambda i: U)), tens(arr((1, 1), lambda i: L))
    region(sc, L, U)
    z = y if which in ("alive", "crossing, positive") else ZERO
    w = [fresh(n, "0+") for n in ("wu", "wl")]
    one = lambda p: tens(arr((1, 1), lambda i: p))
    lines = [one(w[0]), one(z + fresh("su", "0+") - w[0] * y), one(w[1]), one(z - fresh("sl", "0+") - w[1] * y)]
    sc.I.hooks.append(lambda f, args, kwargs: [sc.fresh(l) for l in lines] if f.qual == "decomon.utils:get_linear_hull_relu" else MISSING)
    return Y, d
