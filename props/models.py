"""Tiny networks and their conversion, shared by the properties of whole converted models."""
from sa.scen import *
from props.prims import K, install, fullinputs_contract
from sa.interp import Env

METHODS = ("crown", "crown-forward-ibp", "crown-forward-affine", "crown-forward-hybrid", "forward-ibp", "forward-affine", "forward-hybrid")
FORWARD = ("forward-ibp", "forward-affine", "forward-hybrid")
ACTS = ("relu", "sigmoid", "tanh", "softplus", "softsign", "linear")


class Net:
    """a Keras model built in the scene; `layers` gives access to its layers by short name"""

    def __init__(self, sc, kind):
        self.sc, self.kind = sc, kind
        self.l = {}
        self.submodels = []
        self.model = getattr(self, "net_" + kind.replace("-", "_"))()

    def lay(self, name, cls, *a, **k):
        sc = self.sc
        o = sc.call(sc.layers.d[cls], *a, name=name, **k)
        self.l[name] = o
        return o

    def inp(self, n=None):
        sc = self.sc
        return sc.call(sc.keras.d["Input"], (n or sc.nin,))

    def Model(self, i, o):
        sc = self.sc
        return sc.call(sc.mod("keras.models").d["Model"], i, o)

    def chain(self, t, *layers):
        for l in layers:
            t = self.sc.call(l, t)
        return t

    def net_dense(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), self.lay("d2", "Dense", 2)))

    def net_relu(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation="relu"), self.lay("d2", "Dense", 1)))

    def net_softplus(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation="softplus"), self.lay("d2", "Dense", 1)))

    def net_softmax_last(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation="relu"), self.lay("d2", "Dense", 2), self.lay("a1", "Activation", "softmax")))

    def net_dense_softmax(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), self.lay("d2", "Dense", 2, activation="softmax")))

    def net_sequential_softmax(self):
        ls = [self.lay("d1", "Dense", 2), self.lay("a1", "Activation", "softmax")]
        return self.sc.call(self.sc.mod("keras").d["Sequential"], [self.inp()] + ls)

    def net_layer_activation(self):
        """an activation layer embedded in another layer"""
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation=self.lay("a1", "Activation", "relu")), self.lay("d2", "Dense", 1)))

    def net_nested_same_names(self):
        """layers of a nested model bearing the names of layers of the network"""
        sub_i = self.inp(2)
        lay = lambda cls, *a, **k: self.sc.call(self.sc.layers.d[cls], *a, **k)
        s1 = self.l["s1"] = lay("Dense", 2, activation="relu", name="d1")
        s2 = self.l["s2"] = lay("Dense", 2, name="d2")
        sub = self.Model(sub_i, self.chain(sub_i, s1, s2))
        self.submodels.append(sub)
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), sub, self.lay("d2", "Dense", 1)))

    def net_relu_last(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), self.lay("a1", "Activation", "relu")))

    def net_sequential(self):
        sc = self.sc
        ls = [self.lay("d1", "Dense", 2, activation="tanh"), self.lay("d2", "Dense", 1)]
        return sc.call(sc.mod("keras").d["Sequential"], [self.inp()] + ls)

    def net_first_activation(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("a1", "Activation", "relu"), self.lay("d1", "Dense", 2)))

    def net_two_activations(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2, activation="relu"), self.lay("d2", "Dense", 2), self.lay("a1", "Activation", "sigmoid"), self.lay("d3", "Dense", 1)))

    def net_twice(self):
        """the same Dense layer used twice"""
        i = self.inp()
        d = self.lay("d1", "Dense", self.sc.nin)
        return self.Model(i, self.chain(i, d, self.lay("a1", "Activation", "relu"), d, self.lay("d2", "Dense", 1)))

    def net_activation_twice(self):
        """the same activation layer used twice"""
        i = self.inp()
        a = self.lay("a1", "Activation", "relu")
        return self.Model(i, self.chain(i, a, self.lay("d1", "Dense", 2), a, self.lay("d2", "Dense", 1)))

    def net_dense_act_twice(self):
        """the same Dense layer with its own activation used twice"""
        i = self.inp()
        d = self.lay("d1", "Dense", self.sc.nin, activation="relu")
        return self.Model(i, self.chain(i, d, d, self.lay("d2", "Dense", 1)))

    def net_bn(self):
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), self.lay("bn", "BatchNormalization"), self.lay("a1", "Activation", "relu"), self.lay("d2", "Dense", 1)))

    def net_conv(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 2, 1)), self.lay("c1", "Conv2D", 1, (2, 1), activation="relu"), self.lay("f", "Flatten"), self.lay("d1", "Dense", 1)))

    def net_permute(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 2)), self.lay("p", "Permute", (2, 1)), self.lay("d0", "Dense", 1), self.lay("f", "Flatten"), self.lay("dr", "Dropout", 0.3), self.lay("d1", "Dense", 1)))

    def net_nested(self):
        sub_i = self.inp(2)
        sub = self.Model(sub_i, self.chain(sub_i, self.lay("s1", "Dense", 2, activation="relu"), self.lay("s2", "Dense", 2)))
        self.submodels.append(sub)
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), sub, self.lay("d2", "Dense", 1)))

    def net_nested_twice(self):
        """a nested model used twice"""
        sub_i = self.inp(2)
        sub = self.Model(sub_i, self.chain(sub_i, self.lay("s1", "Dense", 2, activation="relu"), self.lay("s2", "Dense", 2)))
        self.submodels.append(sub)
        i = self.inp()
        return self.Model(i, self.chain(i, sub, self.lay("d1", "Dense", 2), sub, self.lay("d2", "Dense", 1)))

    def net_nested_branches(self):
        """a nested model used in two branches"""
        sub_i = self.inp(2)
        sub = self.Model(sub_i, self.chain(sub_i, self.lay("s1", "Dense", 2, activation="relu")))
        self.submodels.append(sub)
        i = self.inp()
        a = self.chain(i, sub)
        b = self.chain(i, self.lay("d1", "Dense", 2), sub)
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Subtract"), [a, b]), self.lay("d2", "Dense", 1)))

    def net_nested_merge(self):
        """a nested model with branches, its layers bearing names of the network"""
        lay = lambda key, cls, *a, **k: self.l.setdefault(key, self.sc.call(self.sc.layers.d[cls], *a, **k))
        sub_i = self.inp(2)
        s = self.sc.call(lay("s", "Subtract", name="m"), [self.chain(sub_i, lay("s1", "Dense", 2, name="d1", activation="relu")), sub_i])
        sub = self.Model(sub_i, s)
        self.submodels.append(sub)
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2))
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Add"), [self.chain(a, sub), i]), self.lay("d2", "Dense", 1)))

    def net_nested_deep(self):
        """a model nested in a nested model, between layers of the same names"""
        def lay(key, name, act=None):
            self.l[key] = self.sc.call(self.sc.layers.d["Dense"], 2, name=name, activation=act)
            return self.l[key]

        i0 = self.inp(2)
        m0 = self.Model(i0, self.chain(i0, lay("r1", "d1", "relu")))
        i1 = self.inp(2)
        m1 = self.Model(i1, self.chain(i1, lay("s1", "d1"), m0, lay("s2", "d2", "relu")))
        self.submodels += [m0, m1]
        i = self.inp()
        return self.Model(i, self.chain(i, m1, lay("d2", "d2")))

    def net_shared_inside(self):
        """a layer of the network used in a nested model too"""
        d = self.lay("d1", "Dense", 2)
        i0 = self.inp(2)
        sub = self.Model(i0, self.chain(i0, d, self.lay("a1", "Activation", "relu")))
        self.submodels.append(sub)
        i = self.inp()
        return self.Model(i, self.chain(i, d, sub, self.lay("d2", "Dense", 1)))

    def net_shared_branches(self):
        """the same layer in two branches of a merge"""
        d = self.lay("d1", "Dense", 2, activation="relu")
        i = self.inp()
        a = self.chain(i, self.lay("e1", "Dense", 2), d)
        b = self.chain(i, d)
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Subtract"), [a, b]), self.lay("d2", "Dense", 1)))

    def net_diamond(self):
        """a merge of merges: one value used by three branches"""
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2, activation="relu"))
        b = self.chain(a, self.lay("d2", "Dense", 2))
        m1 = self.sc.call(self.lay("m1", "Add"), [a, b])
        m2 = self.sc.call(self.lay("m2", "Subtract"), [m1, a])
        return self.Model(i, self.sc.call(self.lay("m3", "Add"), [m2, i]))

    def net_deep(self):
        """more than ten layers"""
        i = self.inp()
        ls = [self.lay("e0", "Dense", 2), self.lay("e1", "Activation", "relu")] + [self.lay(f"e{k}", "Flatten") for k in range(2, 11)]
        return self.Model(i, self.chain(i, *ls, self.lay("e11", "Dense", 2)))

    def net_deep_skip(self):
        """a value skipping more than ten layers"""
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 1))
        b = self.chain(a, *[self.lay(f"e{k}", "Flatten") for k in range(10)], self.lay("e10", "Activation", "relu"))
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Subtract"), [a, b]), self.lay("d2", "Dense", 1)))

    def net_nested_last(self):
        sub_i = self.inp(2)
        sub = self.Model(sub_i, self.chain(sub_i, self.lay("s1", "Dense", 2, activation="relu")))
        self.submodels.append(sub)
        i = self.inp()
        return self.Model(i, self.chain(i, self.lay("d1", "Dense", 2), sub))

    def net_branches(self):
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2, activation="relu"))
        b = self.chain(i, self.lay("d2", "Dense", 2))
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Subtract"), [a, b]), self.lay("d3", "Dense", 1)))

    def net_skip(self):
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2))
        b = self.chain(a, self.lay("a1", "Activation", "relu"))
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Add"), [b, a]), self.lay("d3", "Dense", 1)))

    def net_concat(self):
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 1, activation="relu"))
        b = self.chain(i, self.lay("d2", "Dense", 2))
        return self.Model(i, self.chain(self.sc.call(self.lay("m", "Concatenate"), [b, a]), self.lay("d3", "Dense", 1)))

    def net_outputs(self):
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2, activation="relu"))
        return self.Model(i, [self.chain(a, self.lay("o1", "Dense", 1)), self.chain(a, self.lay("o2", "Dense", 2))])

    def net_outputs_swapped(self):
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2))
        x = self.chain(a, self.lay("o1", "Dense", 1))
        y = self.chain(a, self.lay("o2", "Dense", 2))
        return self.Model(i, [y, x])


    def net_output_inside(self):
        """an output of the network feeds another one"""
        i = self.inp()
        a = self.chain(i, self.lay("d1", "Dense", 2, activation="relu"))
        return self.Model(i, [a, self.chain(a, self.lay("o2", "Dense", 1))])

    def net_bn_conv(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 1, 2)), self.lay("c1", "Conv2D", 2, (1, 1)), self.lay("bn", "BatchNormalization"), self.lay("a1", "Activation", "relu"), self.lay("f", "Flatten"), self.lay("d1", "Dense", 1)))

    def net_bn_axis1(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 1, 2)), self.lay("bn", "BatchNormalization", axis=1), self.lay("f", "Flatten"), self.lay("d1", "Dense", 1)))

    def net_flatten_first(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 1, 2)), self.lay("f", "Flatten", data_format="channels_first"), self.lay("d1", "Dense", 1)))

    def net_conv_first(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 1, 2)), self.lay("c1", "Conv2D", 2, (1, 2), data_format="channels_first"), self.lay("a1", "Activation", "relu"), self.lay("f", "Flatten", data_format="channels_first"), self.lay("d1", "Dense", 1)))

    def net_dense_3d(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (2, 2)), self.lay("d0", "Dense", 2, activation="relu"), self.lay("f", "Flatten"), self.lay("d1", "Dense", 1)))

    def net_permute_3(self):
        i = self.inp(4)
        return self.Model(i, self.chain(i, self.lay("r", "Reshape", (1, 2, 2)), self.lay("p", "Permute", (3, 1, 2)), self.lay("f", "Flatten"), self.lay("d1", "Dense", 1)))


CHAINS = ("dense", "relu", "relu-last", "sequential", "first-activation", "two-activations", "twice", "activation-twice", "dense-act-twice", "bn", "conv", "permute", "permute-3", "bn-conv", "bn-axis1", "flatten-first", "conv-first", "dense-3d")
GRAPHS = ("branches", "skip", "concat", "nested", "nested-last", "outputs", "outputs-swapped", "output-inside")

NESTED = ("nested-same-names", "nested-twice", "nested-deep", "shared-inside", "deep")
MERGED = ("nested-branches", "nested-merge", "shared-branches", "diamond", "deep-skip")


def nin_of(kind):
    return 4 if kind in ("conv", "permute", "permute-3", "bn-conv", "bn-axis1", "flatten-first", "conv-first", "dense-3d") else 2


def contracts(sc):
    """activations replaced by their specification (their relaxations are P03 and P11); what each layer returns is replaced, once
    proved to enclose a value, by arbitrary bounds of that value"""
    sc.lin = {}
    fullinputs_contract(sc)
    symbolic_builds(sc)
    cuts(sc)
    for a in ("relu", "sigmoid", "tanh", "softplus", "softsign"):
        sc.contract("decomon.layers.activations:" + a, lambda sc, _, y, a=a: sc.call(sc.mod("keras.activations").d[a], y[0]))
    backward_contract(sc)


def symbolic_builds(sc):
    """layers are built by a call on free inputs: only shapes matter there"""
    busy = []

    def hook(f, args, kwargs):
        if busy or f.qual != "decomon.layers.convert:to_decomon":
            return MISSING
        busy.append(1)
        sc.symbolic = True
        try:
            return sc.I.call(f, args, kwargs)
        finally:
            sc.symbolic = False
            busy.pop()

    sc.I.hooks.append(hook)


def mode_of(sc, o):
    try:
        return str(sc.attr(sc.attr(o, "mode"), "value"))
    except Exception:
        return None


def linear_ghost(sc, outs, v):
    """y such that the four backward tensors enclose y as an affine function of the known value v"""
    if v is None or len(outs) != 4 or not all(isinstance(t, T) for t in outs):
        return None
    wu, bu, wl, bl = [ten.raw(t) for t in outs]
    if wu.ndim != 3 or wl.shape != wu.shape or bu.ndim != 2 or bl.shape != bu.shape or v.shape != wu.shape[:2]:
        return None
    ids = sc.ghost_ids()
    a, b = backval(wu, v, bu), backval(wl, v, bl)
    ya, yb = sc.drop_ids(a, ids), sc.drop_ids(b, ids)
    if all(alg.is_zero(ya[i] - yb[i]) is True for i in np.ndindex(ya.shape)):
        if all(alg.nonneg(a[i] - ya[i]) is True and alg.nonneg(ya[i] - b[i]) is True for i in np.ndindex(ya.shape)):
            return ya
    return None


def linear_in(sc, t):
    """the value a backward tensor is to be applied to (backward layers record it)"""
    r = sc.lin.get(id(t.a)) if isinstance(t, T) else None
    return r[1] if r is not None else None


def backval(w, v, b):
    return arr(b.shape, lambda i: ten._fsum([w[i[0], j, i[1]] * v[i[0], j] for j in range(v.shape[1])] + [b[i]]))


def generic_linear(sc, v, y):
    sc.nlin = getattr(sc, "nlin", 0) + 1
    out = []
    for s, sg in (("u", 1), ("l", -1)):
        w = arr((y.shape[0], v.shape[1], y.shape[1]), lambda i: jordan(f"g{sc.nlin}{s}{list(i)}"))
        wv = backval(w, v, arr(y.shape, lambda i: alg.ZERO))
        b = arr(y.shape, lambda i: y[i] + const(sg) * sc.slack(f"gs{sc.nlin}{s}{list(i)}") - wv[i])
        out += [tens(w), tens(b)]
    return out


def remember(sc, outs, v):
    for t in outs:
        if isinstance(t, T):
            sc.lin[id(t.a)] = (t.a, v)


def cuts(sc):
    busy = []

    def hook(f, args, kwargs):
        if f.name != "call" or not args or not isinstance(args[0], Obj) or sc.symbolic or not f.qual.startswith("decomon."):
            return MISSING
        if busy and busy[-1] is args[0]:
            return MISSING
        names = {getattr(c, "name", "") for c in args[0].cls.mro}
        if not names & {"DecomonLayer", "MergeWithPrevious", "Fuse", "Convert2BackwardMode", "BackwardLayer"}:
            return MISSING
        ins = list(args[1] if len(args) > 1 else kwargs["inputs"])
        busy.append(args[0])
        try:
            r = sc.I.call(f, args, kwargs)
        finally:
            busy.pop()
        if not isinstance(r, (list, tuple)):
            return r
        r = list(r)
        if "BackwardLayer" in names:
            y = sc.ghost_of(ins, mode_of(sc, args[0]))
            if y is not None:
                a = ten.raw(y)
                remember(sc, r, a.reshape(a.shape[0], -1))
            return r
        if "MergeWithPrevious" in names or "Fuse" in names:
            v = sc.X if "Fuse" in names else linear_in(sc, ins[0])
            if "Fuse" in names and len(ins) == 6:  # constant bounds of the value the functions are applied to
                v = sc.ghost_of(ins[:2], IBP)
                v = None if v is None else ten.raw(v).reshape(ten.raw(v).shape[0], -1)
                if v is None:
                    return r
            y = linear_ghost(sc, r, v)
            if y is not None:
                r = generic_linear(sc, v, y)
            if v is not None:
                remember(sc, r, v)
            return r
        mode = mode_of(sc, args[0])
        if mode is None:
            return r
        y = sc.ghost_of(r, mode)
        if y is None:
            return r
        sc.ncut = getattr(sc, "ncut", 0) + 1
        return sc.pack(sc.bounds(y, f"k{sc.ncut}."), mode, None if mode == IBP else r[0])

    sc.I.hooks.append(hook)


def backward_contract(sc):
    def hook(f, args, kwargs):
        if f.qual != "decomon.backward_layers.backward_layers:BackwardActivation.call":
            return MISSING
        env = Env(f.env, f.module, f, {})
        sc.I.bind_args(f, env, args, kwargs)
        self_, ins = env.vars["self"], list(env.vars["inputs"])
        mode = str(sc.attr(sc.attr(self_, "mode"), "value"))
        y = sc.ghost_of(ins, mode)
        act = sc.attr(self_, "activation_name")
        if y is None or act not in ACTS or act == "linear":
            return MISSING
        z = ten.raw(sc.call(sc.mod("keras.activations").d[act], y))
        Y = ten.raw(y).reshape(ten.raw(y).shape[0], -1)
        Z = z.reshape(Y.shape)
        sc.nback = getattr(sc, "nback", 0) + 1
        out = []
        n = Y.shape[1]
        for s, sg in (("u", 1), ("l", -1)):
            dg = arr(Y.shape, lambda i: jordan(f"bw{sc.nback}{s}{list(i)}"))
            out.append(tens(arr((Y.shape[0], n, n), lambda i: dg[i[0], i[1]] if i[1] == i[2] else alg.ZERO)))
            out.append(tens(arr(Y.shape, lambda i: Z[i] + const(sg) * sc.slack(f"bs{sc.nback}{s}{list(i)}") - dg[i] * Y[i])))
        return out

    sc.I.hooks.append(hook)


def on_domain(sc, shape=None):
    """the domain input created by the conversion takes the abstract value of the scene"""
    x = ten.raw(sc.x_box())

    def hook(shape, name):
        if tuple(shape) == (2, sc.nin):
            return tens(x.copy())
        return None

    sc.I.state.input_hook = hook


def clone(sc, net, **kw):
    on_domain(sc)
    try:
        return sc.call(sc.get("decomon.models", "clone"), net.model, **kw)
    finally:
        sc.I.state.input_hook = None
