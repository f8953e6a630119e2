"""The batch plays no role."""
import importlib

from sa.scen import *
from props import p20
from props.models import *

EXPLANATION = (
    "Every scenario in which a layer of the library is run (forward, backward, merging, pooling, conversion and composition layers alone; whole "
    "converted networks; losses and metrics) is interpreted with an observer. After each call of a layer, its call is interpreted again on the same "
    "inputs followed by unrelated ones: the bounds of the first elements must be unchanged (rule independent). It is interpreted once more on a batch of "
    "unknown size, as when Keras traces it for predict, fit or a saved graph: sizes derived from the size of the batch read as None, len() of a tensor "
    "and conversions to numpy raise; the call must go through and return the bounds of each element (rule traced)."
)
H = "props.p31"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "layers, options, ranks and sizes are enumerated; sizes computed from the batch are recognised because every other size is prime to it",
    "layers which cannot be interpreted on a batch (tangent searches) are listed as undecided",
]
LIMIT = {"quick": 120, "thorough": 600}
B = 11  # batch of unknown size; no other size is a multiple of it


def obligations(tier):
    out = []
    for o in p20.obligations(tier):
        if o[2] != "operation":
            out.append((o[0], H, *o[2:]))
    for op in ("BatchedIdentityLike", "BatchedDiagLike"):
        for sh in ((2,), (1,), (3,), (2, 2)):
            out.append((f"{op}/{'x'.join(map(str, sh))}", H, "operation", op, sh))
    return out


def flat(v):
    if isinstance(v, T):
        return [v]
    if isinstance(v, (list, tuple)):
        out = []
        for t in v:
            f = flat(t)
            if f is None:
                return None
            out += f
        return out
    return None


def rebuild(v, f):
    return f(v) if isinstance(v, T) else [rebuild(t, f) for t in v]


class Watch:
    def __init__(self, rec):
        self.rec = rec
        self.busy = False
        self.n = 0
        self.seen = set()

    def attach(self, I):
        self.I = I
        I.hooks.insert(0, self.hook)

    def hook(self, f, args, kwargs):
        if self.busy or f.name not in ("call", "call_linear") or not args or not isinstance(args[0], Obj) or not f.qual.startswith("decomon."):
            return MISSING
        self.busy = True
        try:
            r = self.I.call(f, args, kwargs)
        finally:
            self.busy = False
        o = args[0]
        ins = args[1] if len(args) > 1 else kwargs.get("inputs")
        if ins is not None:
            self.again(o, f, ins, args, kwargs)
        return r

    def again(self, o, f, ins, args, kwargs):
        cons = f"{o.cls.module.name}:{o.cls.name}"
        ts = flat(ins)
        if not ts or any(not t.a.shape for t in ts) or len({t.a.shape[0] for t in ts}) != 1:
            return
        b = ts[0].a.shape[0]
        k = (id(o), str([t.a.shape for t in ts]))
        if k in self.seen:
            return
        self.seen.add(k)
        self.keep = o
        self.n += 1

        def run(values):
            it = iter(values)
            new = rebuild(ins, lambda t: tens(next(it)))
            a, kw = list(args), dict(kwargs)
            if len(a) > 1:
                a[1] = new
            else:
                kw["inputs"] = new
            r = self.I.call(f, a, kw)
            return [ten.raw(t) for t in flat(r)]

        sizes = {s for t in ts for s in t.a.shape[1:]}
        hooks, self.I.hooks[:] = list(self.I.hooks), []
        what = f"inputs {[t.a.shape for t in ts]}"
        try:
            try:
                alone = run([t.a for t in ts])
            except AbsRaise as e:
                return  # the scenario is judged by its own property
            except Unsupported as e:
                self.rec.undecided("independent", cons, f"{what}: {e}")
                return
            other = [np.concatenate([t.a, ten.raw(base_tensor((1,) + t.a.shape[1:], f"other{j}"))]) for j, t in enumerate(ts)]
            try:
                both = run(other)
            except AbsRaise as e:
                self.rec.bad("independent", cons, f"{what} with one more element: {e.typename()}: {e}", e.where)
                both = None
            except Unsupported as e:
                self.rec.undecided("independent", cons, f"{what}: {e}")
                both = None
            if both is not None:
                self.same("independent", cons, f"{what}: bounds depend on another element of the batch", alone, both, b, b + 1)
            many = [np.concatenate([t.a[:1]] * B) for t in ts]
            self.I.unknown = B
            try:
                traced = run(many)
            except AbsRaise as e:
                self.rec.bad("traced", cons, f"{what}, unknown size of the batch: {e.typename()}: {e}", e.where)
                return
            except Unsupported as e:
                self.rec.undecided("traced", cons, f"{what}: {e}")
                return
            finally:
                self.I.unknown = 0
            self.same("traced", cons, f"{what}: other bounds when the size of the batch is unknown", [a[:1] for a in alone], traced, 1, B)
        finally:
            self.I.hooks[:] = hooks

    def same(self, rule, cons, what, alone, many, b, n):
        if len(alone) != len(many):
            self.rec.bad(rule, cons, f"{what}: {len(alone)} tensors, {len(many)} in a batch")
            return
        for x, y in zip(alone, many):
            if y.shape != (n,) + x.shape[1:]:
                self.rec.bad(rule, cons, f"{what}: shape {y.shape} for a batch of {n} elements")
                continue
            self.rec.zero(tens(y[:b] - x[:b]), rule, cons, what)


def watched(rec, run):
    w = Watch(rec)
    old = p20.Watch
    p20.Watch = lambda _: w
    try:
        run()
    except AbsRaise:
        pass  # judged by the property of the scenario
    finally:
        p20.Watch = old
    if not w.n and not rec.items:
        rec.undecided("independent", "scenario", "no call met")


class Nothing:
    """what P20 says of the scenario"""

    items = ()

    def __init__(self, rec):
        self.rec = rec

    def interp(self):
        return self.rec.interp()

    def ok(self, *a, **k):
        pass

    bad = undecided = check = nonneg = zero = ok


def observed(rec, *a):
    watched(rec, lambda: p20.observed(Nothing(rec), *a))


def network(rec, *a):
    watched(rec, lambda: p20.network(Nothing(rec), *a))


def activation(rec, *a):
    watched(rec, lambda: p20.activation(Nothing(rec), *a))


def loss(rec, *a):
    watched(rec, lambda: p20.loss(Nothing(rec), *a))


def operation(rec, op, sh):
    sc = Scene(rec, 2, 1)
    o = sc.call(sc.get("decomon.keras_utils", op))
    w = Watch(rec)
    w.attach(sc.I)
    sc.call(sc.attr(o, "call"), base_tensor((1,) + sh, "x"))
    if not w.n:
        rec.undecided("independent", op, "no call met")
