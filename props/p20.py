"""Shapes layers declare."""
import importlib

from sa.scen import *
from sa.oblig import Rec
from props.models import *

EXPLANATION = (
    "Every scenario in which a layer of the library is run (forward, backward, merging, pooling, conversion and composition layers alone; whole "
    "converted networks; losses and metrics) is interpreted with an observer: after each call, compute_output_shape is interpreted on the shapes of "
    "the inputs of the call, and on the same shapes with an unknown batch size. As many shapes must be declared as tensors are returned, "
    "with the same ranks and sizes (rule declared). The operations creating identity and diagonal tensors are checked likewise on their compute_output_spec."
)
H = "props.p20"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "layers, options, ranks and sizes are enumerated; a declaration raising NotImplementedError declares nothing",
]
LIMIT = {"quick": 120, "thorough": 600}
KINDS = ("relu", "two-activations", "twice", "bn", "conv", "permute", "bn-axis1", "flatten-first", "conv-first", "dense-3d", "nested")


def obligations(tier):
    out = []
    deep = tier == "deep"
    for p, pick in (("p01", lambda o: True), ("p02", lambda o: not o.startswith("prim/")), ("p06", lambda o: "max" not in o.split("/")[0]),
                    ("p10", lambda o: True), ("p12", lambda o: True), ("p13", lambda o: o.startswith(("fuse", "merge", "convert")) and "/function" not in o and "/diagonal" not in o)):
        m = importlib.import_module("props." + p)
        for o in m.obligations("deep" if deep else "std"):
            if o[1] == "props." + p and pick(o[0]):
                out.append((f"{p}/{o[0]}", H, "observed", p, o[2], tuple(o[3:])))
    for kind in KINDS + (("dense", "relu-last", "first-activation", "permute-3", "bn-conv", "nested-last", "outputs", "output-inside") if deep else ()):
        for m in METHODS:
            finals = [(None, None), (True, True), (True, False), (False, True)] if kind in ("relu", "two-activations") or deep else [(None, None)]
            for fi, fa in finals:
                out.append((f"net/{kind}/{m}/{fi}-{fa}", H, "network", kind, m, fi, fa))
    for kind in ("branches", "skip", "concat", "outputs"):
        for m in FORWARD:
            for fi, fa in [(None, None), (True, True), (True, False), (False, True)]:
                out.append((f"net/{kind}/{m}/{fi}-{fa}", H, "network", kind, m, fi, fa))
    for act in ACTS + ("exponential",):
        for mode in MODES:
            for sh in ((2,), (2, 2)):
                out.append((f"activation/{act}/{mode}/{len(sh)}d", H, "activation", act, mode, sh))
    for op in ("BatchedIdentityLike", "BatchedDiagLike"):
        for sh in ((2, 3), (1, 2), (2, 1)) + (((2, 2, 3),) if op == "BatchedIdentityLike" else ()):
            out.append((f"{op}/{'x'.join(map(str, sh))}", H, "operation", op, sh))
    for mode in MODES:
        for n in (2, 3):
            for asym in (False, True):
                out.append((f"loss/crossentropy{int(asym)}/{mode}/out{n}", H, "loss", "fusion", (mode, "box", n, asym)))
            if mode != IBP:
                out.append((f"loss/radius/{mode}/out{n}", H, "loss", "radius", (mode, n)))
    return out


class Quiet:
    """runs the scenario of another property for the sake of the calls it makes"""

    def __init__(self, rec, watch):
        self.rec, self.watch = rec, watch

    def interp(self):
        I = self.rec.interp()
        self.watch.attach(I)
        return I

    def ok(self, *a, **k):
        pass

    bad = undecided = check = nonneg = zero = ok


def shapes_of(v):
    if isinstance(v, (list, tuple)):
        return [shapes_of(t) for t in v]
    return tuple(ten.raw(v).shape)


def plain(s):
    """declared shapes as nested lists of tuples"""
    if isinstance(s, T):
        s = tuple(s.a.ravel().tolist())
    if isinstance(s, (list, tuple)) and (not s or any(isinstance(x, (list, tuple)) for x in s)):
        return [plain(x) for x in s]
    if isinstance(s, (list, tuple)):
        return tuple(None if x is None else int(x) for x in s)
    raise Unsupported("declared shape")


def unknown_batch(s):
    if isinstance(s, list):
        return [unknown_batch(x) for x in s]
    return (None,) + s[1:]


def agrees(declared, actual):
    if isinstance(actual, list):
        return isinstance(declared, list) and len(declared) == len(actual) and all(agrees(a, b) for a, b in zip(declared, actual))
    return isinstance(declared, tuple) and len(declared) == len(actual) and all(a is None and i == 0 or a == b for i, (a, b) in enumerate(zip(declared, actual)))


class Watch:
    def __init__(self, rec):
        self.rec = rec
        self.stack = []
        self.n = 0
        self.seen = set()

    def attach(self, I):
        self.I = I
        I.hooks.insert(0, self.hook)

    def hook(self, f, args, kwargs):
        if f.name not in ("call", "call_linear") or not args or not isinstance(args[0], Obj) or not f.qual.startswith("decomon."):
            return MISSING
        o = args[0]
        if any(o is x for x in self.stack):
            return MISSING
        m = o.cls.lookup("compute_output_shape") if hasattr(o.cls, "lookup") else None
        ins = args[1] if len(args) > 1 else kwargs.get("inputs")
        self.stack.append(o)
        try:
            r = self.I.call(f, args, kwargs)
        finally:
            self.stack.pop()
        if ins is not None and f.name == "call":
            self.compare(o, ins, r)
        return r

    def compare(self, o, ins, r):
        cons = f"{o.cls.module.name}:{o.cls.name}"
        try:
            si, so = shapes_of(ins), shapes_of(r)
        except Exception:
            return
        own = [c for c in o.cls.mro if "compute_output_shape" in getattr(c, "d", {}) and str(getattr(getattr(c, "module", None), "name", "")).startswith("decomon")]
        if not own:
            return
        k = (cons, str(si), str(so))
        if k in self.seen:
            return
        self.seen.add(k)
        f = self.I.getattr(o, "compute_output_shape")
        for s, tag in ((si, ""), (unknown_batch(si), " (unknown batch size)")):
            self.stack.append(o)
            try:
                d = plain(self.I.call(f, [s], {}))
            except AbsRaise as e:
                if e.typename() != "NotImplementedError":
                    self.rec.bad("declared", cons, f"compute_output_shape{tag} raises {e.typename()} on inputs {si}", e.where)
                continue
            except Unsupported as e:
                self.rec.undecided("declared", cons, str(e))
                continue
            finally:
                self.stack.pop()
            self.n += 1
            self.rec.check(agrees(d, so), "declared", cons, f"declares {d}{tag} and returns {so} on inputs {si}")


def observed(rec, prop, fname, args):
    w = Watch(rec)
    try:
        getattr(importlib.import_module("props." + prop), fname)(Quiet(rec, w), *args)
    except AbsRaise as e:
        if not w.n:
            rec.undecided("declared", f"{prop}:{fname}", f"the scenario raises {e.typename()}")
    if not w.n and not rec.items:
        rec.undecided("declared", f"{prop}:{fname}", "no declaration met")


def network(rec, kind, method, fi, fa):
    from props.survey import Survey

    w = Watch(rec)
    q = Quiet(rec, w)
    sc = Scene(q, nin_of(kind), 1)
    net = Net(sc, kind)
    sv = Survey(sc)
    kw = {k: v for k, v in (("final_ibp", fi), ("final_affine", fa)) if v is not None}
    try:
        sv.clone(net, sc.box(), method=method, **kw)
    except AbsRaise as e:
        if not w.n:
            rec.undecided("declared", "decomon.models.convert:clone", f"the scenario raises {e.typename()}")


def activation(rec, act, mode, sh):
    from props.p01 import keras_layer, decomon_of
    from props.p10 import to_backward

    w = Watch(rec)
    sc = Scene(Quiet(rec, w), 2, 1)
    lay = keras_layer(sc, ("Activation", (act,), {}), sh)
    y = sc.ghost(sh)
    contracts(sc)
    dl = decomon_of(sc, lay, mode, sc.nin)
    ins = sc.pack(sc.bounds(y), mode)
    try:
        sc.call(dl, ins)
    except AbsRaise as e:
        if e.typename() != "NotImplementedError":
            raise
    if act in ACTS:
        bl = to_backward(sc, lay, mode)
        sc.call(bl, ins)
        bl = to_backward(sc, dl, mode)
        sc.call(bl, ins)
    if not w.n:
        rec.undecided("declared", "activation", "no declaration met")


def operation(rec, op, sh):
    sc = Scene(rec, 2, sh[0])
    cls = sc.get("decomon.keras_utils", op)
    x = base_tensor(sh, "x")
    o = sc.call(cls)
    r = sc.call(sc.attr(o, "call"), x)
    spec = sc.call(sc.attr(o, "compute_output_spec"), x)
    cons = f"decomon.keras_utils:{op}"
    rec.check(tuple(sc.attr(spec, "shape")) == shapes_of(r), "declared", cons, f"declares {sc.attr(spec, 'shape')} and returns {shapes_of(r)}")
    a = ten.raw(r)
    n = sh[-1]
    X = ten.raw(x)
    want = arr(sh + (n,), lambda i: (const(1) if op == "BatchedIdentityLike" else X[i[:-1]]) if i[-1] == i[-2] else alg.ZERO)
    if a.shape == want.shape:
        rec.zero(tens(a - want), "value", cons, op)


def loss(rec, fname, args):
    w = Watch(rec)
    from props import p27

    getattr(p27, fname)(Quiet(rec, w), *args)
    if not w.n:
        rec.undecided("declared", fname, "no declaration met")
