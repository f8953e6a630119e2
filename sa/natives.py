"""Models of the external modules the analysed tree imports (summaries of their transfer
functions); nothing of the analysed tree or of Keras is executed."""
from __future__ import annotations

import ast
import collections
import copy as _copy
import itertools
import math
from fractions import Fraction

import numpy as np

from . import alg, ten
from .alg import Poly, const
from .interp import (
    MISSING, AbsRaise, BoundV, ClassMV, ClassV, EnumMember, FuncV, Interp, ModuleV, Obj, Opaque, PropV, StaticV,
    TensorType, TypingForm, scan_function,
)
from .pylib import PYLIB
from .ten import KOPS, T, Prog, Unsupported


# ------------------------------------------------------------------ _sa
def make_sa(I: Interp):
    st = I.state

    def is_tensor(x):
        return isinstance(x, T)

    def check_tensor(t):
        return None

    def is_sym(t):
        return isinstance(t, T) and t.sym

    def set_history(t, h):
        t.hist = h
        t.sym = True

    def fresh_outputs(x):
        if isinstance(x, (list, tuple)):
            r = [fresh_outputs(e) for e in x]
            return r if isinstance(x, list) else tuple(r)
        if isinstance(x, dict):
            return {k: fresh_outputs(v) for k, v in x.items()}
        if isinstance(x, T):
            r = T(x.a, x.dtype, False)
            r.sym = True
            r.parents = (x,)
            r.static_shape = x.static_shape
            r.origin = x.origin
            return r
        return x

    def auto_name(cls):
        s = []
        for i, c in enumerate(cls):
            if c.isupper() and i and not cls[i - 1].isupper():
                s.append("_")
            s.append(c.lower())
        base = "".join(s).lstrip("_")
        n = st.names.get(base, 0)
        st.names[base] = n + 1
        return base if n == 0 else f"{base}_{n}"

    def remove_identity(lst, v):
        for i, x in enumerate(lst):
            if x is v:
                del lst[i]
                return

    def call_has_training(layer):
        f, _ = layer.cls.lookup("call")
        if isinstance(f, FuncV):
            a = f.node.args
            return any(p.arg == "training" for p in a.args + a.kwonlyargs)
        return False

    def new_variable(layer, shape, initializer, trainable, constraint, name):
        shape = tuple(int(s) for s in shape)
        v = st.variable(layer, shape, initializer, trainable, constraint, name)
        v.name = name or "variable"
        v.extra = {"trainable": trainable, "constraint": constraint, "initializer": initializer, "_var": True,
                   "regularizer": None, "owner_layer": layer}
        st.variables.append((layer, v))
        return v

    def dedup(xs):
        out = []
        for x in xs:
            if not any(x is y for y in out):
                out.append(x)
        return out

    def new_input(shape, name):
        t = st.input(tuple(shape), name)
        t = T(t.a, t.dtype, False)
        t.sym = True
        t.name = name
        return t

    def spec_from_shapes(s):
        raise Unsupported("output spec from shapes")

    def conv_output_shape(shp, filters, ks, strides, padding, fmt, dil):
        if fmt == "channels_last":
            sp, b = shp[1:3], shp[0]
        else:
            sp, b = shp[2:4], shp[0]
        out = []
        for n, k, s, d in zip(sp, ks, strides, dil):
            if padding == "same":
                out.append(-(-n // s))
            else:
                out.append((n - d * (k - 1) - 1) // s + 1)
        return (b, *out, filters) if fmt == "channels_last" else (b, filters, *out)

    def pool_output_shape(shp, ks, strides, padding, fmt):
        c = shp[3] if fmt == "channels_last" else shp[1]
        return conv_output_shape(shp, c, ks, strides, padding, fmt, (1, 1))

    def batch_statistics(layer, x):
        # training-mode statistics depend on the batch: an unrelated quantity
        r = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = alg.fresh("batchstat", "*")
        return ten.mk(r, x)

    def random_mask(layer, x):
        r = np.empty(x.a.shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = alg.fresh("dropped", "*")
        return ten.mk(r, x)

    def sort_ops(ops, depth):
        return sorted(ops, key=lambda o: -depth[id(o)])

    def all_layer_graph(inputs, outputs):
        """every tensor computation between inputs and outputs sits in a layer call"""
        ids = {id(t) for t in inputs}
        seen = set()
        work = list(outputs)
        while work:
            t = work.pop()
            if id(t) in ids or id(t) in seen:
                continue
            seen.add(id(t))
            h = t.hist
            if h is None:
                if t.sym:
                    return False
                continue
            node = h.d["operation"].d["_inbound_nodes"][h.d["node_index"]]
            if not node.d["input_tensors"] and not node.d["is_input"]:
                return False
            for p in node.d["input_tensors"]:
                if p.hist is None and p.sym and id(p) not in ids:
                    return False
                work.append(p)
        return True

    def replay(outputs, inputs, values):
        """outputs of a graph for other values of its inputs: its layers are called again, its raw operations recomputed"""
        memo = {id(t): v for t, v in zip(inputs, values)}
        keep = []

        def sub(x):
            if isinstance(x, T):
                return val(x)
            if isinstance(x, list):
                return [sub(e) for e in x]
            if isinstance(x, tuple):
                return tuple(sub(e) for e in x)
            if isinstance(x, dict):
                return {k: sub(v) for k, v in x.items()}
            return x

        def flat(x):
            return [t for e in x for t in flat(e)] if isinstance(x, (list, tuple)) else [x]

        def val(t):
            if id(t) in memo:
                return memo[id(t)]
            if not t.sym:
                return t
            if t.hist is not None:
                node = t.hist.d["operation"].d["_inbound_nodes"][t.hist.d["node_index"]]
                if node.d["is_input"]:
                    raise Unsupported("input of a graph without a value")
                out = I.call(node.d["operation"], sub(list(node.d["args"])), sub(dict(node.d["kwargs"])))
                for a, b in zip(flat(node.d["output_tensors"]), flat(out)):
                    memo[id(a)] = b
                return memo[id(t)]
            if t.op is not None:
                f, args, kwargs, i = t.op
                r = f(*sub(tuple(args)), **sub(dict(kwargs)))
                memo[id(t)] = r if i is None else r[i]
                return memo[id(t)]
            if len(t.parents) == 1 and t.parents[0].a is t.a:
                return val(t.parents[0])
            raise Unsupported("raw operation of a model that is not recorded")

        return sub(outputs)

    def collect_layers(inputs, outputs, layer_cls):
        """layers reachable backwards from the outputs (through raw operations)"""
        ids = {id(t) for t in inputs}
        seen = set()
        out = []
        order = []

        def visit(t):
            stack = [(t, 0)]
            while stack:
                t, ph = stack.pop()
                if ph == 1:
                    op = t.hist.d["operation"]
                    if not any(op is o for o in out):
                        out.append(op)
                    continue
                if id(t) in seen:
                    continue
                seen.add(id(t))
                if t.hist is not None:
                    op = t.hist.d["operation"]
                    node = op.d["_inbound_nodes"][t.hist.d["node_index"]]
                    stack.append((t, 1))
                    if id(t) in ids:
                        continue
                    for p in node.d["input_tensors"]:
                        stack.append((p, 0))
                else:
                    for p in t.parents:
                        stack.append((p, 0))

        for o in list(inputs) + list(outputs):
            visit(o)
        return [o for o in out if o.cls.issub(layer_cls)]

    def new_object(cls):
        return Obj(cls)

    def unsupported(msg):
        raise Unsupported(msg)

    def event(kind, obj, args, kwargs):
        st.events.append((kind, obj, args, kwargs))
        if st.event_hook is not None:
            st.event_hook(kind, obj, args, kwargs)

    def predict(model, x):
        return st.predict(model, x)

    class Param:
        def __init__(self, name, default=MISSING):
            self.name = name
            self.default = default

        def sa_getattr(self, n):
            return getattr(self, n)

    def parameters(f):
        if isinstance(f, ClassV):
            init, _ = f.lookup("__init__")
            f = BoundV(init, None)
        skip = 0
        if isinstance(f, BoundV):
            f = f.func
            skip = 1
        if not isinstance(f, FuncV):
            raise Unsupported("signature of an external function")
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args][skip:] + [p.arg for p in a.kwonlyargs]
        return {n: Param(n) for n in names}

    def deepcopy(x, memo=None):
        memo = {} if memo is None else memo
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, Obj):
            dc, _ = x.cls.lookup("__deepcopy__")
            if dc is not MISSING:
                return dc(x, memo)
            r = Obj(x.cls)
            if x.host is not None:
                r.host = deepcopy(x.host, memo)
            memo[id(x)] = r
            for k, v in x.d.items():
                r.d[k] = deepcopy(v, memo)
            return r
        if isinstance(x, list):
            r = []
            memo[id(x)] = r
            r.extend(deepcopy(e, memo) for e in x)
            return r
        if isinstance(x, tuple):
            r = [deepcopy(e, memo) for e in x]
            return type(x)(*r) if hasattr(x, "_fields") else tuple(r)
        if isinstance(x, collections.deque):
            return collections.deque(deepcopy(e, memo) for e in x)
        if isinstance(x, dict):
            r = _copy.copy(x)
            r.clear()
            memo[id(x)] = r
            for k, v in x.items():
                r[deepcopy(k, memo)] = deepcopy(v, memo)
            return r
        if isinstance(x, set):
            return {deepcopy(e, memo) for e in x}
        if isinstance(x, T):
            r = T(x.a.copy(), x.dtype, x.np_)
            r.sym, r.parents, r.hist, r.name, r.op = x.sym, x.parents, x.hist, x.name, x.op
            r.extra = dict(x.extra) if x.extra else x.extra
            memo[id(x)] = r
            return r
        return x

    def copy(x):
        if isinstance(x, Obj):
            f, _ = x.cls.lookup("__copy__")
            if f is not MISSING:
                return f(x)
            r = Obj(x.cls)
            r.d.update(x.d)
            if x.host is not None:
                r.host = _copy.copy(x.host)
            return r
        if isinstance(x, (list, dict, set)):
            return type(x)(x)
        return x

    kt = KTType(I)
    d = dict(
        KerasTensor=kt, Variable=TensorType("Variable", lambda o: isinstance(o, T) and bool(o.extra) and o.extra.get("_var", False)),
        is_tensor=is_tensor, check_tensor=check_tensor, is_sym=is_sym, set_history=set_history,
        fresh_outputs=fresh_outputs, auto_name=auto_name, remove_identity=remove_identity,
        call_has_training=call_has_training, new_variable=new_variable, dedup=dedup, new_input=new_input,
        spec_from_shapes=spec_from_shapes, conv_output_shape=conv_output_shape, pool_output_shape=pool_output_shape,
        batch_statistics=batch_statistics, random_mask=random_mask, batch_dot=ten.k_batch_dot, rnn=ten.k_rnn,
        sort_ops=sort_ops, all_layer_graph=all_layer_graph, replay=replay, collect_layers=collect_layers, new_object=new_object,
        unsupported=unsupported, event=event, predict=predict, EPS=0, parameters=parameters, deepcopy=deepcopy,
        copy=copy,
    )
    return ModuleV("_sa", d)


class KTType(TensorType):
    def __init__(self, I):
        super().__init__("KerasTensor", lambda o: isinstance(o, T) and o.hist is not None)
        self.I = I

    def __call__(self, shape=None, dtype="float32", **kw):
        a = np.empty(tuple(int(s) for s in shape), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = alg.fresh("spec", "*")
        t = T(a, str(dtype))
        t.sym = True
        return t


class State:
    """Scenario hooks of one analysis."""

    def __init__(self):
        self.names = {}
        self.variables = []
        self.events = []
        self.event_hook = None
        self.var_hook = None
        self.input_hook = None
        self.predict_hook = None
        self.batch = 1

    def variable(self, layer, shape, initializer, trainable, constraint, name):
        if self.var_hook is not None:
            r = self.var_hook(layer, shape, initializer, trainable, constraint, name)
            if r is not None:
                return r
        return jordan_tensor(shape, name or "v", layer=layer)

    def input(self, shape, name):
        if self.input_hook is not None:
            r = self.input_hook(shape, name)
            if r is not None:
                return r
        return base_tensor((self.batch,) + tuple(shape), name or "x")

    def predict(self, model, x):
        if self.predict_hook is not None:
            return self.predict_hook(model, x)
        raise Unsupported("predict")


def base_tensor(shape, name, sgn="*", np_=False):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = alg.fresh(f"{name}{list(i)}", sgn)
    return T(a, "float32", np_)


def jordan_tensor(shape, name, layer=None):
    a = np.empty(shape, dtype=object)
    pos = name in ("moving_variance",)
    for i in np.ndindex(*shape):
        a[i] = alg.fresh(f"{name}{list(i)}", "+") if pos else alg.jordan(f"{name}{list(i)}")
    return T(a, "float32")


# ------------------------------------------------------------------ numpy
def _num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool))


def _flatnum(x):
    if _num(x):
        return [x]
    if isinstance(x, (list, tuple)):
        out = []
        for e in x:
            r = _flatnum(e)
            if r is None:
                return None
            out += r
        return out
    return None


def _pyred(f, kf):
    def g(x, axis=None, **kw):
        if axis is None and not isinstance(x, T):
            l = _flatnum(x)
            if l is not None:
                return f(l)
        if isinstance(x, (list, tuple)) and not isinstance(x, T):
            x = ten.np_array(x)
        return kf(x, axis=axis, **kw)

    return g


def _prod(l):
    if any(v is None for v in l):
        raise TypeError("None in prod")
    r = 1
    for v in l:
        r = r * v
    return r


def npify(f):
    def g(*a, **k):
        r = f(*a, **k)
        return _np(r)

    return g


def _np(r):
    if isinstance(r, T):
        r.np_ = True
        return r
    if isinstance(r, list):
        return [_np(e) for e in r]
    if isinstance(r, tuple):
        return tuple(_np(e) for e in r)
    return r


def make_numpy(I):
    d = {}
    for n, f in KOPS.items():
        d[n] = npify(f)
    d.update(
        inf=math.inf, pi=math.pi, newaxis=None, nan=math.nan,
        prod=_pyred(_prod, npify(ten.k_prod)), sum=_pyred(sum, npify(ten.k_sum)),
        max=_pyred(max, npify(ten.k_max)), min=_pyred(min, npify(_np_min)),
        array=ten.np_array, asarray=ten.np_asarray, delete=npify(ten.np_delete), insert=npify(ten.np_insert),
        linspace=npify(ten.np_linspace), concatenate=npify(ten.np_concatenate), arange=npify(ten.k_arange),
        ndarray=TensorType("ndarray", lambda o: isinstance(o, T) and o.np_),
        float_=Dtype("float64"), int_=Dtype("int64"), float32=Dtype("float32"), float64=Dtype("float64"),
        int32=Dtype("int32"), int64=Dtype("int64"), bool_=Dtype("bool"),
        shape=ten.k_shape, reshape=npify(ten.k_reshape),
    )
    def fill(shape, v, dtype=None, **k):
        return d["zeros"](shape) + v

    def isnan(x):
        a = ten.A(x)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = const(0)
        return T(r, "bool", True)

    def uniq(x, **k):
        a = ten.A(x).ravel()
        vs = []
        for p in a:
            if not (isinstance(p, Poly) and all(not m for m in p.t)) or k:
                raise Unsupported("unique of abstract values")
            vs.append(p.t.get((), 0))
        return ten.np_array(sorted(set(vs)))

    d.setdefault("full", fill)
    d.setdefault("isnan", isnan)
    d.setdefault("isinf", isnan)
    d.setdefault("isfinite", lambda x: isnan(x) + 1 > 0)
    d.setdefault("unique", uniq)
    d.setdefault("ndim", lambda x: x.ndim if isinstance(x, T) else np.ndim(x))
    d.setdefault("size", lambda x: x.size if isinstance(x, T) else np.size(x))
    d["amax"], d["amin"] = d["max"], d["min"]
    d["array_split"] = npify(_array_split)
    d["atleast_1d"] = lambda x: x if isinstance(x, T) and x.ndim else ten.np_array([x])
    d["isscalar"] = lambda x: ten.is_scalar(x)
    d["random"] = ModuleV("numpy.random", {"randint": lambda *a, **k: I.state.randint(*a) if hasattr(I.state, "randint") else _unsup("random")})
    d["argmax"] = npify(lambda x, axis=None, **k: _argmax(I, x, axis))
    d["linalg"] = ModuleV("numpy.linalg", {"norm": npify(ten.k_norm)})
    d["typing"] = I.load("numpy.typing")
    return ModuleV("numpy", d)


def _np_min(x, *a, **k):
    r = ten.k_min(x, *a, **k)
    if isinstance(r, T) and r.a.size == 1 and all(alg.quick_sign(p) in ("0", "+", "0+") for p in ten.A(x).ravel()):
        alg.fact_nonneg(r.a.reshape(-1)[0])
    return r


def _argmax(I, x, axis=None):
    """position of the largest value; left to the scenario when it depends on abstract values"""
    a = ten.A(x)
    b = a.reshape(-1) if axis is None else np.moveaxis(a, axis, -1)

    def one(v):
        nums = [p.t.get((), 0) if isinstance(p, Poly) and all(not m for m in p.t) else None for p in v]
        if all(n is not None for n in nums):
            return int(np.argmax([float(n) for n in nums]))
        if getattr(I.state, "argmax", None) is None:
            raise Unsupported("argmax of abstract values")
        return I.state.argmax(len(v))

    r = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = const(one(b[i]))
    return T(r, "int64", True)


def _array_split(x, n, axis=0):
    a = ten.A(x)
    n = n.tolist() if isinstance(n, T) else n
    return [ten._out(p, x) for p in np.array_split(a, n, axis=axis)]


def _unsup(m):
    raise Unsupported(m)


class Dtype:
    def __init__(self, n):
        self.__name__ = n
        self.n = n

    def __str__(self):
        return self.n

    def __call__(self, x=0):
        if isinstance(x, T):
            return x
        return int(x) if self.n.startswith("int") else x


class Sub(TypingForm):
    pass


def make_np_typing(I):
    return ModuleV("numpy.typing", {"NDArray": Sub("NDArray"), "ArrayLike": Sub("ArrayLike")})


def make_math(I):
    def w(f):
        def g(*a):
            if any(isinstance(x, (Poly, T)) for x in a):
                raise Unsupported("math on abstract value")
            return f(*a)

        return g

    return ModuleV("math", {n: (w(getattr(math, n)) if callable(getattr(math, n)) else getattr(math, n)) for n in dir(math) if not n.startswith("_")})


def make_importlib(I):
    return ModuleV("importlib", {"metadata": I.load("importlib.metadata")})


def make_importlib_md(I):
    return ModuleV("importlib.metadata", {"version": lambda n: "0", "PackageNotFoundError": KeyError})


def keras_signatures():
    """signatures of keras.ops 3.0.5 (table extracted once from the installed package)"""
    import json
    import os

    with open(os.path.join(os.path.dirname(__file__), "keras_sigs.json")) as f:
        return json.load(f)


def _unmodelled(n):
    def g(*a, **k):
        raise Unsupported(f"keras.ops.{n}")

    return g


def _sigcheck(n, sig, f):
    ps = sig["params"]

    def g(*a, **k):
        if len(a) > len(ps) and not sig["varargs"]:
            raise Prog("TypeError", f"keras.ops.{n}() takes {len(ps)} positional arguments but {len(a)} were given")
        for x in k:
            if x not in ps and x not in sig["kwonly"] and not sig["varkw"]:
                raise Prog("TypeError", f"keras.ops.{n}() got an unexpected keyword argument '{x}'")
            if x in ps[: len(a)]:
                raise Prog("TypeError", f"keras.ops.{n}() got multiple values for argument '{x}'")
        for x in sig["required"]:
            if x not in ps[: len(a)] and x not in k:
                raise Prog("TypeError", f"keras.ops.{n}() missing required argument '{x}'")
        if not sig["varargs"]:
            a = list(a)
            for x in sig["required"][len(a):]:
                a.append(k.pop(x))
        return f(*a, **k)

    return g


def make_kops(I):
    d = dict(KOPS)
    d["image"] = ModuleV("keras.ops.image", {"extract_patches": ten.k_extract_patches})
    I.modules["keras.ops.image"] = d["image"]
    # keyword spellings of keras.ops
    def kw(f, *names):
        def g(*a, **k):
            a = list(a)
            for n in names[len(a):]:
                if n in k:
                    a.append(k.pop(n))
                else:
                    break
            return f(*a, **k)

        return g

    for n in list(d):
        if n in ("add", "subtract", "multiply", "divide", "maximum", "minimum", "dot", "matmul"):
            d[n] = kw(d[n], "x1", "x2")
        elif n in ("max", "min", "sum", "mean", "prod", "reshape", "expand_dims", "transpose", "split", "sort", "relu", "abs", "exp", "log", "sign", "cast", "where", "repeat"):
            if n == "where":
                d[n] = kw(d[n], "condition", "x1", "x2")
            else:
                d[n] = kw(d[n], "x")
    for n, sig in keras_signatures().items():
        d[n] = _sigcheck(n, sig, d[n]) if n in d else _unmodelled(n)
    return ModuleV("keras.ops", d)


NATIVES = {
    **PYLIB,
    "_sa": make_sa, "numpy": make_numpy, "numpy.typing": make_np_typing, "math": make_math,
    "importlib": make_importlib, "importlib.metadata": make_importlib_md, "keras.ops": make_kops,
    "keras.ops.image": lambda I: I.load("keras.ops").d["image"],
}


# ------------------------------------------------------------------ interpreter with Keras attribute tracking
class Code:
    def __init__(self, f):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        locs = scan_function(f.node)[0]
        self.co_varnames = tuple(params + sorted(x for x in locs if x not in params))
        self.co_argcount = len(a.posonlyargs + a.args)


class KInterp(Interp):
    def __init__(self, root, stub_root, package="decomon"):
        self.state = State()
        super().__init__(root, stub_root, NATIVES, package)
        self.attr_writes = []  # (obj, name) of writes by the analysed package
        self.watch = None

    def getattr(self, o, name):
        if isinstance(o, FuncV) and name == "__code__":
            return Code(o)
        return super().getattr(o, name)

    def tensor_class(self, o):
        return self.load("_sa").d["KerasTensor"]

    def setattr(self, o, name, v):
        if self.watch is not None:
            self.watch(o, name, v, self.stack[-1] if self.stack else None)
        if isinstance(o, Obj):
            t, _ = o.cls.lookup("_sa_tracked")
            if t is not MISSING and "_trainable_variables" in o.d:
                p, _ = o.cls.lookup(name)
                if not isinstance(p, PropV):
                    self.track(o, name, v)
        return super().setattr(o, name, v)

    def track(self, o, name, v):
        if name in ("_trainable_variables", "_non_trainable_variables", "_layers", "_tracker", "_inbound_nodes", "_outbound_nodes", "_outbound_ops") or name.startswith("_sa"):
            return
        locked = o.d["_tracker"].d.get("locked") if isinstance(o.d.get("_tracker"), Obj) else False
        layer_cls = self.modules["keras._core"].d["Layer"]

        def add(store, x):
            if any(x is y for y in store):
                return
            if locked:
                raise AbsRaise(ValueError("You cannot add new elements of state (variables or sub-layers) to a layer that is already built."))
            store.append(x)

        def walk(x, depth=0):
            if isinstance(x, T) and x.extra and x.extra.get("_var"):
                known = o.d["_trainable_variables"] + o.d["_non_trainable_variables"]
                if any(x is y for y in known):
                    return
                add(o.d["_trainable_variables"] if x.extra.get("trainable", True) else o.d["_non_trainable_variables"], x)
            elif isinstance(x, Obj) and x.cls.issub(layer_cls):
                add(o.d["_layers"], x)
            elif isinstance(x, (list, tuple)) and depth < 3:
                for e in x:
                    walk(e, depth + 1)
            elif isinstance(x, dict) and depth < 3:
                for e in x.values():
                    walk(e, depth + 1)

        walk(v)


def new_interp(repo="/repo"):
    import os

    here = os.path.dirname(os.path.abspath(__file__))
    alg.reset_atoms()
    alg.clear_valuations()
    return KInterp(os.path.join(repo, "src"), os.path.join(here, "stubs"))
