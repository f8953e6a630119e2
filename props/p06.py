"""Forward propagation through max pooling."""
from sa.scen import *
from props.p01 import decomon_of, keras_layer
from props.prims import install
from props import p05

EXPLANATION = (
    "The Decomon max pooling layer is interpreted on abstract bounds enclosing a ghost image; each output bound minus the pooled ghost must be "
    "nonnegative and have the shape of the Keras output, for every pool size, stride, padding, data format and mode (rule sound). "
    "The maximum along an axis it relies on is checked against its own specification."
)
H = "props.p06"


def cases(tier):
    cs = [
        ("2x2", (2, 2, 2), {"pool_size": (2, 2)}),
        ("2x1", (3, 2, 1), {"pool_size": (2, 1)}),
        ("1x2-s1", (2, 3, 1), {"pool_size": (1, 2), "strides": (1, 1)}),
        ("1x3", (1, 3, 1), {"pool_size": (1, 3)}),
        ("3x1", (3, 1, 1), {"pool_size": (3, 1)}),
        ("2x3", (2, 3, 1), {"pool_size": (2, 3)}),
        ("3x2", (3, 2, 1), {"pool_size": (3, 2)}),
        ("2x1-s21", (4, 2, 1), {"pool_size": (2, 1), "strides": (2, 1)}),
        ("2x2-s12", (2, 3, 1), {"pool_size": (2, 2), "strides": (1, 2)}),
        ("2x2-same", (3, 2, 1), {"pool_size": (2, 2), "padding": "same"}),
        ("2x2-first", (2, 2, 2), {"pool_size": (2, 2), "data_format": "channels_first"}),
        ("2x1-first", (1, 2, 3), {"pool_size": (2, 1), "data_format": "channels_first"}),
    ]
    if tier != "quick":
        cs += [
            ("2x2-4x4", (4, 4, 1), {"pool_size": (2, 2)}),
            ("2x2-c3", (2, 2, 3), {"pool_size": (2, 2)}),
            ("3x3", (3, 3, 1), {"pool_size": (3, 3)}),
            ("2x1-same-s1", (3, 2, 1), {"pool_size": (2, 1), "strides": (1, 1), "padding": "same"}),
        ]
    return cs


def obligations(tier):
    out = []
    for n, sh, kw in cases(tier):
        for mode in MODES:
            for fast in (True, False):
                out.append((f"{n}/{'fast' if fast else 'exact'}/{mode}", H, "pool", n, sh, kw, mode, fast))
    return out + p05.obligations(tier, only=("max_", "maximum"))


def pool(rec, name, sh, kw, mode, fast):
    sc = Scene(rec, 2 if np.prod(sh) <= 4 else 1, 1)
    lay = keras_layer(sc, ("MaxPooling2D", (), kw), sh)
    y = sc.ghost(sh)
    target = sc.call(lay, y)
    d = sc.bounds(y)
    install(sc, "max_")
    sc.symbolic = True
    if fast:
        dl = decomon_of(sc, lay, mode, sc.nin)
    else:
        cls = sc.get("decomon.layers.maxpooling", "DecomonMaxPooling2D")
        dl = sc.call(cls, mode=sc.mode(mode), perturbation_domain=sc.box(), fast=False, **kw)
    sc.symbolic = False
    outs = sc.call(dl, sc.pack(d, mode))
    sc.check_bounds(list(outs), mode, target, f"{dl.cls.module.name}:{dl.cls.name}", f"{name} fast={fast}")
