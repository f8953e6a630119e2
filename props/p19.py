"""Configurations of layers, domains and models."""
import itertools

from sa.scen import *
from sa.interp import ClassV, FuncV, EnumMember
from props.models import *
from props.survey import *

EXPLANATION = (
    "Every class of the library defining both a constructor and a configuration is enumerated from the source, with the options its constructors name. "
    "Instances are interpreted with every option away from its default, alone and together, and with options reassigned after construction; the "
    "configuration reported must list each option (rule listed) with the value currently held (rule current), and the instance interpreted from that "
    "configuration must hold the same options and report the same configuration (rule rebuilt). Converted models are built with every method and "
    "combination of options, their configuration being compared with the options they hold. An instance holds the options given to its constructor (rule kept)."
)
H = "props.p19"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py; the configuration a Keras base class reports and its from_config follow the Keras documentation",
    "writing configurations to disk and reading them back (keras.saving) is not modelled",
]
LIMIT = {"quick": 120, "thorough": 600}
MODULES = (
    "decomon.core", "decomon.layers.decomon_layers", "decomon.layers.decomon_merge_layers", "decomon.layers.decomon_reshape", "decomon.layers.maxpooling",
    "decomon.backward_layers.backward_layers", "decomon.backward_layers.backward_merge", "decomon.backward_layers.backward_maxpooling",
    "decomon.models.crown", "decomon.models.utils", "decomon.metrics.loss", "decomon.metrics.metric",
)
# arguments of Keras needed to build the layers
NEEDED = {
    "Dense": {"units": 3, "use_bias": False}, "Conv2D": {"filters": 2, "kernel_size": (2, 1), "strides": (1, 2), "padding": "same", "data_format": "channels_first", "use_bias": False},
    "Activation": {"activation": "relu"}, "Dropout": {"rate": 0.25}, "Flatten": {"data_format": "channels_first"}, "Reshape": {"target_shape": (3, 2)},
    "Permute": {"dims": (2, 1)}, "BatchNormalization": {"axis": 1, "momentum": 0.5, "epsilon": 0.25, "center": False, "scale": False}, "InputLayer": {"shape": (3,)},
    "MaxPooling2D": {"pool_size": (2, 1), "strides": (1, 2), "data_format": "channels_first"}, "Concatenate": {"axis": 1}, "Dot": {"axes": (1, 1)},
}
SPEC = {
    "Dense": ((2,), ("Dense", (2,), {})), "Conv2D": ((2, 2, 1), ("Conv2D", (1, (2, 1)), {})), "Activation": ((2,), ("Activation", ("relu",), {})),
    "Flatten": ((2, 2), ("Flatten", (), {})), "Reshape": ((2, 3), ("Reshape", ((3, 2),), {})), "Permute": ((2, 3), ("Permute", ((2, 1),), {})),
    "Dropout": ((2,), ("Dropout", (0.25,), {})), "BatchNormalization": ((2,), ("BatchNormalization", (), {})),
    "MaxPooling2D": ((2, 2, 1), ("MaxPooling2D", ((2, 2),), {})),
}
MERGES = ("Add", "Average", "Subtract", "Minimum", "Maximum", "Multiply", "Concatenate", "Dot")


def obligations(tier):
    out = []
    for m in MODULES:
        for v in ("together", "alone", "reassigned"):
            out.append((f"{m}/{v}", H, "configs", m, v, tier))
    for k, m in enumerate(METHODS):
        for i, (fi, fa) in enumerate(((None, None), (True, True), (True, False), (False, True))):
            for j, opts in enumerate(({}, {"finetune": True}, {"shared": False}, {"finetune": True, "shared": False})):
                if tier == "deep" or (i + j + k) % 4 == 0:
                    out.append((f"model/{m}/{fi}-{fa}/{','.join(opts) or 'default'}", H, "model", m, fi, fa, opts))
    return out


def own(c):
    return isinstance(c, ClassV) and str(getattr(c.module, "name", "")).startswith("decomon")


def options(cls):
    """names of the constructor options named by the library along the hierarchy, those without default"""
    names, needed, seen_own = [], [], False
    for c in cls.mro:
        if not own(c):
            continue
        f = c.d.get("__init__")
        if not isinstance(f, FuncV):
            continue
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        ndef = len(a.defaults)
        req = pos[: len(pos) - ndef] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if not seen_own:
            needed, seen_own = req, True
            names += [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in names]
            if a.kwarg is None:
                break
        else:
            names += [n for n in pos + [x.arg for x in a.kwonlyargs] if n not in names]
    return names, needed


def enum_of(sc, cls, key):
    return cls.members[key]


class Maker:
    def __init__(self, sc):
        self.sc = sc

    def domain(self, i=0):
        sc = self.sc
        return [lambda: sc.call(sc.core.d["BallDomain"], eps=0.375, p=1), sc.box, lambda: sc.call(sc.core.d["BallDomain"], eps=0.5)][i % 3]()

    def values(self, cls, name):
        """values of an option, away from its default first"""
        sc = self.sc
        metric = any(getattr(c, "name", "") == "MetricLayer" for c in cls.mro)
        if name == "perturbation_domain":
            if cls.name == "DecomonRadiusRobust":
                return [sc.box(), sc.box()]
            return [self.domain(0), self.domain(1)]
        if name == "mode" and metric:
            M = sc.get("decomon.metrics.metric", "MetricMode")
            return [M.members["BACKWARD"], M.members["FORWARD"]]
        if name in ("mode", "mode_from", "mode_to"):
            return [sc.mode("affine"), sc.mode("ibp"), sc.mode("hybrid")] if name != "mode_to" else [sc.mode("ibp"), sc.mode("hybrid"), sc.mode("affine")]
        if name in ("dc_decomp", "finetune", "shared", "backward", "asymptotic"):
            return [True, False]
        if name in ("fast", "ibp", "affine"):
            return [False, True]
        if name == "slope":
            S = sc.core.d["Slope"].members
            return [S["S_SLOPE"], S["O_SLOPE"], S["A_SLOPE"]]
        if name == "opt_option":
            O = sc.core.d["Option"].members
            return [O[k] for k in O if k != "milp"] + [O["milp"]]
        return {"rec": [3, 2], "input_dim": [5, 7], "eps": [0.375, 0.5], "p": [1, 3], "input_shape_layer": [(None, 2, 3), (None, 4, 3)],
                "backward_shape_layer": [(None, 3, 1), (None, 3, 2)]}.get(name)

    def layer(self, cls, mode):
        """layer a backward layer is built from"""
        from props.p01 import keras_layer, decomon_of
        from props.p12 import keras_merge

        sc = self.sc
        base = cls.name[len("Backward"):]
        if base in MERGES:
            lay = keras_merge(sc, base, [(2,), (2,)], **({"axes": 1} if base == "Dot" else {}))
        elif base == "InputLayer":
            return sc.call(sc.layers.d["InputLayer"], shape=(2,))
        elif base in SPEC:
            lay = keras_layer(sc, SPEC[base][1], SPEC[base][0])
        else:
            raise Unsupported(f"layer of {cls.name}")
        if base in ("Subtract", "Maximum", "Minimum", "Multiply", "Concatenate", "Dot"):
            return decomon_of(sc, lay, mode, sc.nin)
        return lay


def classes(sc, module):
    m = sc.mod(module)
    out = []
    for n, c in list(m.d.items()):
        if isinstance(c, ClassV) and c.module is m and own(c) and c.lookup("get_config")[0] is not MISSING:
            if any(own(k) and "get_config" in k.d for k in c.mro) and not list(sc.I._abstract(c)):
                out.append(c)
    return out


def same(a, b):
    if a is b:
        return True
    if isinstance(a, EnumMember) or isinstance(b, EnumMember):
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, int, float, str, type(None))) and isinstance(b, (bool, int, float, str, type(None))):
        return a == b and type(a) is type(b) or (not isinstance(a, bool) and not isinstance(b, bool) and a == b)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and str(a.cls.module.name).startswith("decomon.core"):
        return same({k: v for k, v in a.d.items()}, {k: v for k, v in b.d.items()})
    return False


def show(sc, v):
    if isinstance(v, Obj):
        return v.cls.name + (f"({v.d['eps']}, p={v.d.get('p')})" if "eps" in v.d else "")
    return str(getattr(v, "value", v))


def report(sc, o, names, cons, what, skip=()):
    """configuration of o, compared with what it holds"""
    rec = sc.rec
    try:
        config = sc.call(sc.attr(o, "get_config"))
    except AbsRaise as e:
        rec.bad("listed", cons, f"{what}: get_config raises {e.typename()}", e.where)
        return None
    for n in names:
        if n in skip:
            continue
        held = o.d.get(n, MISSING)
        if held is MISSING:
            if o.cls.lookup(n)[0] is not MISSING and n not in ("input", "output"):
                held = sc.attr(o, n)
            else:
                continue
        if n not in config:
            rec.bad("listed", f"{cons}.{n}", f"{what}: the configuration lacks {n} (held: {show(sc, held)})")
            continue
        rec.check(same(config[n], held), "current", f"{cons}.{n}", f"{what}: the configuration reports {n}={show(sc, config[n])}, the object holds {show(sc, held)}")
    return config


def rebuild(sc, o, config, names, cons, what):
    rec = sc.rec
    cls = o.cls
    try:
        if cls.lookup("from_config")[0] is MISSING:
            o2 = sc.call(cls, **dict(config))
        else:
            o2 = sc.call(sc.attr(cls, "from_config"), dict(config))
    except AbsRaise as e:
        rec.bad("rebuilt", cons, f"{what}: building from the configuration raises {e.typename()}", e.where)
        return
    for n in names:
        if n in o.d:
            if n not in o2.d:
                rec.bad("rebuilt", f"{cons}.{n}", f"{what}: the object built from the configuration has no {n}")
                continue
            rec.check(same(o.d[n], o2.d[n]), "rebuilt", f"{cons}.{n}", f"{what}: {n}={show(sc, o.d[n])} becomes {show(sc, o2.d[n])} in the object built from the configuration")
    config2 = sc.call(sc.attr(o2, "get_config"))
    for k in config:
        if k not in config2:
            rec.bad("rebuilt", f"{cons}.{k}", f"{what}: {k} disappears from the configuration")
        else:
            rec.check(same(config[k], config2[k]), "rebuilt", f"{cons}.{k}", f"{what}: {k}={show(sc, config[k])} becomes {show(sc, config2[k])}")


def configs(rec, module, variant, tier):
    sc = Scene(rec, 2, 1)
    mk = Maker(sc)
    for cls in classes(sc, module):
        cons = f"{module}:{cls.name}"
        try:
            one_class(sc, mk, cls, cons, variant, tier)
        except Unsupported as e:
            rec.undecided("listed", cons, str(e))


def build(sc, mk, cls, cons, given, needed, required):
    base = next((b for b in NEEDED if cls.name == "Decomon" + b), None)
    kw = dict(NEEDED[base]) if base else {}
    kw.update(given)
    for n in needed:
        if n == "layer":
            kw["layer"] = mk.layer(cls, kw.get("mode").value if "mode" in kw else HYBRID)
        elif n not in kw:
            v = mk.values(cls, n)
            if v is None:
                raise Unsupported(f"option {n} of {cls.name}")
            kw[n] = v[0]
    return sc.call(cls, **kw)


def one_class(sc, mk, cls, cons, variant, tier):
    rec = sc.rec
    names, needed = options(cls)
    base = next((b for b in NEEDED if cls.name == "Decomon" + b), None)
    plain = [n for n in names if n != "layer" and (base is None or n not in NEEDED[base]) and mk.values(cls, n) is not None]
    names = [n for n in names if n not in ("name", "dtype", "batch_size", "input_tensor", "shape", "batch_shape", "sparse", "layer") and not (base and n in NEEDED[base])]
    trials = []
    if variant == "together":
        first = {n: mk.values(cls, n)[0] for n in plain}
        trials = [first, {n: v for n, v in first.items() if n != "dc_decomp"}]
    elif variant == "alone":
        for n in plain:
            for v in mk.values(cls, n):
                trials.append({n: v})
    else:
        trials = [{n: mk.values(cls, n)[1] for n in plain}, {}]
    done = 0
    for given in trials:
        try:
            o = build(sc, mk, cls, cons, given, needed, names)
        except AbsRaise as e:
            if e.typename() in ("NotImplementedError", "ValueError", "KeyError"):
                continue  # combination refused
            rec.bad("listed", cons, f"building with {', '.join(given)} raises {e.typename()}", e.where)
            continue
        done += 1
        what = ", ".join(f"{n}={show(sc, v)}" for n, v in given.items())
        if base is not None:
            keras_options(sc, o, base, cons, what)
        for n, v in given.items():
            lay = o.d.get("layer")
            if n in o.d and not (isinstance(lay, Obj) and own(lay.cls) and n in lay.d):  # backward layers take after the decomon layer they are built from
                rec.check(same(o.d[n], v), "kept", f"{cons}.{n}", f"{what}: the object built with {n}={show(sc, v)} holds {show(sc, o.d[n])}")
        if variant != "reassigned":
            c = report(sc, o, names, cons, what)
            if c is not None:
                rebuild(sc, o, c, names, cons, what)
            continue
        for n in plain:
            if n not in o.d:
                continue
            for v in mk.values(cls, n):
                if same(v, o.d[n]):
                    continue
                sc.I.setattr(o, n, v)
                report(sc, o, names, cons, f"after {n} is set to {show(sc, v)}")
                break
    if not done:
        rec.undecided("listed", cons, "no combination of options accepted")


def keras_options(sc, o, base, cons, what):
    """options of the Keras layer a converted layer stands for"""
    config = sc.call(sc.attr(o, "get_config"))
    for n, v in NEEDED[base].items():
        if n == "shape":
            n, v = "batch_shape", (None,) + v
        if n not in config:
            sc.rec.bad("listed", f"{cons}.{n}", f"{what}: the configuration lacks {n}")
        else:
            sc.rec.check(same(config[n], v), "current", f"{cons}.{n}", f"{what}: the configuration reports {n}={config[n]}, the layer was built with {v}")


def model(rec, method, fi, fa, opts):
    sc = Scene(rec, 2, 1)
    net = Net(sc, "relu")
    sv = Survey(sc)
    doms = [domain_of(sc, "ball2")] if method != "forward-ibp" else []
    for dom in doms + [sc.box()]:
        kw = {k: v for k, v in (("final_ibp", fi), ("final_affine", fa)) if v is not None}
        try:
            m = sv.clone(net, dom, method=method, **kw, **opts)
        except AbsRaise as e:
            if e.typename() in ("NotImplementedError", "ValueError"):
                continue
            raise
        cons = "decomon.models.models:DecomonModel"
        names = [n for n in options(m.cls)[0] if n not in ("inputs", "outputs")]
        what = f"{method} {kw} {opts}"
        model_report(sc, m, names, cons, what)
        for n in ("finetune", "shared", "backward_bounds", "dc_decomp", "ibp", "affine"):
            if isinstance(m.d.get(n), bool):
                sc.I.setattr(m, n, not m.d[n])
                model_report(sc, m, names, cons, f"after {n} is set to {m.d[n]}")
                sc.I.setattr(m, n, not m.d[n])
        net = Net(sc, "relu")


def model_report(sc, m, names, cons, what):
    rec = sc.rec
    config = sc.call(sc.attr(m, "get_config"))
    for n in names:
        held = sc.attr(m, n)
        if n not in config:
            rec.bad("listed", cons, f"{what}: the configuration lacks {n}")
            continue
        v = config[n]
        if n == "perturbation_domain" and isinstance(v, dict):
            rec.check(v.get("class_name") == held.cls.name, "current", cons, f"{what}: the configuration reports a {v.get('class_name')}, the model holds a {held.cls.name}")
            own_config = sc.call(sc.attr(held, "get_config"))
            rec.check(same(v.get("config"), own_config), "current", cons, f"{what}: the domain is reported as {v.get('config')}, it holds {own_config}")
        else:
            rec.check(same(v, held), "current", cons, f"{what}: the configuration reports {n}={show(sc, v)}, the model holds {show(sc, held)}")
    rec.check(config.get("name") == sc.attr(m, "name"), "current", cons, f"{what}: name")
