"""Conversion of a network observed from outside: which layers it is made of, which domains they call, with which options."""
from sa.scen import *
from props.models import *

LAYER_BASES = {"DecomonLayer", "BackwardLayer", "MergeWithPrevious", "Fuse", "Convert2BackwardMode", "Convert2Mode"}


OPS = ("decomon.utils:", "decomon.layers.utils:", "decomon.backward_layers.utils:", "decomon.layers.utils_pooling:")


def is_layer(o):
    if not isinstance(o, Obj):
        return False
    names = {getattr(c, "name", "") for c in o.cls.mro}
    return bool(names & LAYER_BASES) or (o.cls.module.name.startswith("decomon.models.") and "Layer" in names and "Model" not in names)


def is_a(o, name):
    return isinstance(o, Obj) and name in {getattr(c, "name", "") for c in o.cls.mro}


def qual_of(o):
    return f"{o.cls.module.name}:{o.cls.name}"


def domain_of(sc, kind):
    if kind == "box":
        return sc.box()
    B = sc.core.d["BallDomain"]
    p = {"ball1": 1, "ball2": 2, "ballinf": float("inf")}[kind]
    return sc.call(B, eps=0.375, p=p)


def earlier(sc, net, before):
    """another conversion of the same network, with other options, happened before"""
    if before is None:
        return
    method, dom, kw = before
    hooks = list(sc.I.hooks)
    sv = Survey(sc)
    sv.n = 100000
    try:
        sc.earlier = sv.clone(net, domain_of(sc, dom), method=method, **kw)
    except AbsRaise as e:
        if e.typename() not in ("NotImplementedError", "KeyError"):
            raise
    finally:
        sc.I.hooks[:] = hooks


def has(sc, o, name):
    try:
        return sc.attr(o, name)
    except AbsRaise:
        return None


def same_domain(sc, a, b):
    if not isinstance(a, Obj) or a.cls is not b.cls:
        return False
    if "eps" in b.d:
        return same_value(a.d.get("eps"), b.d.get("eps")) and same_value(a.d.get("p"), b.d.get("p"))
    return True


def same_value(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b or (a is not None and b is not None and alg.is_zero(ten.raw(a)[()] - ten.raw(b)[()]) is True)
    return a == b


class Survey:
    """hooks observing an interpretation: `layers` called outside of dummy builds, `domains` = calls of perturbation domains"""

    def __init__(self, sc, havoc=True):
        self.sc = sc
        self.layers = []
        self.domains = []  # (function, domain object, x argument, layer on the stack)
        self.acts = []  # (function, keyword arguments, layer on the stack)
        self.stack = []
        self.calls = []  # (layer, arguments, keyword arguments) of the first call of each layer
        self.n = 0
        self.havoc = havoc
        self.inner = None  # operation whose result is being blurred
        symbolic_builds(sc)
        sc.I.hooks.append(self.hook)

    def fresh_like(self, t, keep=None):
        self.n += 1
        return tens(ten.raw(base_tensor(ten.raw(t).shape, f"v{self.n}")))

    def is_network_input(self, t):
        if not isinstance(t, T):
            return False
        a, b = ten.raw(t), self.X
        return a.shape == b.shape and all(alg.is_zero(a[i] - b[i]) is True for i in np.ndindex(a.shape))

    def hook(self, f, args, kwargs):
        sc = self.sc
        if not f.qual.startswith("decomon."):
            return MISSING
        if f.qual in ("decomon.utils:get_t_upper", "decomon.utils:get_t_lower"):
            return [self.fresh_like(args[0]), self.fresh_like(args[0])]
        if sc.symbolic:
            return MISSING
        if f.name in ("get_upper", "get_lower") and f.qual.startswith("decomon.core:") and args and isinstance(args[0], Obj):
            a = list(args[1:])
            x = a[0] if a else kwargs.get("x")
            self.domains.append((f, args[0], x, self.stack[-1] if self.stack else None))
            b = a[2] if len(a) > 2 else kwargs.get("b")
            if self.havoc and isinstance(b, T):
                t = self.fresh_like(b)
                t.sym = b.sym
                return t
            return MISSING
        if f.qual.startswith(("decomon.layers.activations:", "decomon.backward_layers.activations:")) and f.name not in ("get", "deserialize"):
            self.acts.append((f, list(args), dict(kwargs), self.stack[-1] if self.stack else None))
        if self.havoc and self.inner is not f and f.qual.startswith(OPS):
            prev, self.inner = self.inner, f
            try:
                return self.blur(None, sc.I.call(f, args, kwargs))
            finally:
                self.inner = prev
        if f.name == "call" and args and is_layer(args[0]):
            o = args[0]
            if self.stack and self.stack[-1] is o:
                return MISSING
            ins = list(args[1] if len(args) > 1 else kwargs["inputs"]) if (len(args) > 1 or "inputs" in kwargs) else []
            if not any(o is l for l in self.layers):
                self.layers.append(o)
                self.calls.append((f, list(args), dict(kwargs)))
            self.stack.append(o)
            try:
                r = sc.I.call(f, args, kwargs)
            finally:
                self.stack.pop()
            if not self.havoc:
                return r
            return self.blur(o, r)
        return MISSING

    def blur(self, o, r):
        if isinstance(r, (list, tuple)):
            return [self.blur(o, t) for t in r]
        if isinstance(r, T) and not self.is_network_input(r):
            t = self.fresh_like(r)
            t.sym = getattr(r, "sym", False)
            return t
        return r

    def clone(self, net, dom, **kw):
        sc = self.sc
        if is_a(dom, "BoxDomain"):
            self.X = ten.raw(sc.x_box())
        else:
            self.X = sc.X

        def hook(shape, name):
            return tens(self.X.copy()) if tuple(shape) == self.X.shape[1:] else None

        sc.I.state.input_hook = hook
        try:
            return sc.call(sc.get("decomon.models", "clone"), net.model, perturbation_domain=dom, **kw)
        finally:
            sc.I.state.input_hook = None
