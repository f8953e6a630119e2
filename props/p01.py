"""Forward propagation through layers computing an affine function of their input."""
from sa.scen import *

EXPLANATION = (
    "Each Decomon layer is interpreted on abstract bounds enclosing an arbitrary ghost activation; every output bound minus "
    "the value the Keras layer computes on the ghost activation must be nonnegative in the polarity domain (rule sound), and "
    "zero when the input bounds carry no slack (rule exact)."
)

H = "props.p01"


def layer_cases(tier):
    cs = [
        ("Dense", (2,), ("Dense", (2,), {})),
        ("Dense-nobias", (2,), ("Dense", (2,), {"use_bias": False})),
        ("Dense-3d", (2, 2), ("Dense", (2,), {})),
        ("BatchNormalization", (3,), ("BatchNormalization", (), {})),
        ("BatchNormalization-noscale", (2,), ("BatchNormalization", (), {"scale": False})),
        ("BatchNormalization-nocenter", (2,), ("BatchNormalization", (), {"center": False})),
        ("BatchNormalization-axis1", (2, 2, 1), ("BatchNormalization", (), {"axis": 1})),
        ("Conv2D-valid", (3, 2, 1), ("Conv2D", (2, (2, 2)), {})),
        ("Conv2D-same-stride", (3, 2, 2), ("Conv2D", (1, (2, 1)), {"padding": "same", "strides": (2, 1)})),
        ("Conv2D-nobias-first", (1, 2, 3), ("Conv2D", (2, (1, 2)), {"use_bias": False, "data_format": "channels_first"})),
        ("Conv2D-first-stride", (2, 3, 3), ("Conv2D", (1, (2, 2)), {"data_format": "channels_first", "padding": "same", "strides": (2, 2)})),
        ("Conv2D-square-stride", (3, 3, 2), ("Conv2D", (2, (2, 2)), {"padding": "valid", "strides": (2, 1)})),
        ("Flatten", (2, 3), ("Flatten", (), {})),
        ("Flatten-first", (2, 2, 3), ("Flatten", (), {"data_format": "channels_first"})),
        ("Reshape", (2, 3), ("Reshape", ((3, 2),), {})),
        ("Permute", (2, 3), ("Permute", ((2, 1),), {})),
        ("Permute-3", (2, 3, 2), ("Permute", ((3, 1, 2),), {})),
        ("Dropout", (3,), ("Dropout", (0.4,), {})),
    ]
    if tier != "quick":
        cs += [
            ("Dense-wide", (4,), ("Dense", (3,), {})),
            ("Conv2D-dil", (4, 4, 1), ("Conv2D", (1, (2, 2)), {"dilation_rate": (2, 2)})),
            ("Conv2D-same-2", (3, 3, 2), ("Conv2D", (2, (3, 2)), {"padding": "same"})),
            ("Reshape-infer", (2, 3, 2), ("Reshape", ((-1, 2),), {})),
            ("BatchNormalization-4d", (2, 2, 2), ("BatchNormalization", (), {"axis": -1})),
            ("Conv2D-same-dil", (3, 3, 1), ("Conv2D", (1, (2, 2)), {"padding": "same", "dilation_rate": (2, 2)})),
            ("Conv2D-same-dil-uneven", (3, 4, 1), ("Conv2D", (2, (2, 2)), {"padding": "same", "dilation_rate": (1, 2)})),
            ("Conv2D-first-dil", (1, 4, 3), ("Conv2D", (1, (2, 2)), {"data_format": "channels_first", "dilation_rate": (2, 1)})),
            ("Conv2D-first-same", (2, 2, 3), ("Conv2D", (2, (2, 2)), {"data_format": "channels_first", "padding": "same"})),
            ("Conv2D-stride3", (4, 4, 1), ("Conv2D", (1, (2, 2)), {"strides": (1, 3)})),
            ("BatchNormalization-neither", (2,), ("BatchNormalization", (), {"scale": False, "center": False})),
            ("BatchNormalization-axis2", (1, 2, 2), ("BatchNormalization", (), {"axis": 2})),
            ("BatchNormalization-eps", (2,), ("BatchNormalization", (), {"epsilon": 0.25})),
            ("Dense-4d", (1, 2, 2), ("Dense", (2,), {})),
            ("Dense-3d-nobias", (2, 1), ("Dense", (2,), {"use_bias": False})),
            ("Flatten-1d", (3,), ("Flatten", (), {})),
            ("Flatten-3d", (2, 1, 2), ("Flatten", (), {})),
            ("Flatten-first-2d", (2, 3), ("Flatten", (), {"data_format": "channels_first"})),
            ("Reshape-flat", (2, 2), ("Reshape", ((4,),), {})),
            ("Permute-4", (2, 1, 3), ("Permute", ((2, 3, 1),), {})),
            ("Dropout-2d", (2, 2), ("Dropout", (0.4,), {})),
        ]
    if tier == "deep":
        cs += [
            ("Dense-wide-5", (5,), ("Dense", (5,), {})),
            ("Dense-3d-wide", (3, 3), ("Dense", (3,), {})),
            ("Conv2D-4x4", (4, 4, 2), ("Conv2D", (2, (3, 3)), {"padding": "same"})),
            ("Conv2D-4x4-stride", (4, 4, 2), ("Conv2D", (2, (3, 3)), {"padding": "same", "strides": (2, 2)})),
            ("Conv2D-5x4-first", (2, 5, 4), ("Conv2D", (2, (2, 3)), {"data_format": "channels_first", "strides": (2, 1)})),
            ("Conv2D-1x1", (3, 2, 3), ("Conv2D", (3, (1, 1)), {})),
            ("Conv2D-full", (2, 3, 2), ("Conv2D", (2, (2, 3)), {})),
            ("Conv2D-same-dil-3", (5, 4, 1), ("Conv2D", (1, (3, 2)), {"padding": "same", "dilation_rate": (2, 3)})),
            ("BatchNormalization-5d", (2, 1, 2, 2), ("BatchNormalization", (), {"axis": 2})),
            ("Reshape-4", (2, 3, 2), ("Reshape", ((3, 2, 2),), {})),
            ("Permute-5", (2, 1, 3, 2), ("Permute", ((4, 2, 1, 3),), {})),
            ("Flatten-first-4d", (2, 1, 2, 3), ("Flatten", (), {"data_format": "channels_first"})),
        ]
    return cs


def obligations(tier):
    out = []
    for name, shape, spec in layer_cases(tier):
        for mode in MODES:
            for batch in (1, 2) if (name in ("Dense", "BatchNormalization", "Flatten") or tier != "quick") else (1,):
                out.append((f"{name}/{mode}/b{batch}", H, "forward_layer", name, shape, spec, mode, batch, 2 if batch == 1 else 1))
    return out


def decomon_of(sc, lay, mode, nin, **kw):
    f = sc.get("decomon.layers.convert", "to_decomon")
    return sc.call(f, lay, nin, perturbation_domain=kw.pop("domain", None) or sc.box(), ibp=mode != AFFINE, affine=mode != IBP, **kw)


def keras_layer(sc, spec, shape):
    cls, args, kw = spec
    lay = sc.call(sc.layers.d[cls], *args, **kw)
    sc.call(lay, sc.call(sc.keras.d["Input"], shape))
    return lay


def forward_layer(rec, name, shape, spec, mode, batch, nin):
    sc = Scene(rec, nin, batch)
    lay = keras_layer(sc, spec, shape)
    y = sc.ghost(shape)
    target = sc.call(lay, y)
    dl = decomon_of(sc, lay, mode, nin)
    d = sc.bounds(y)
    outs = sc.call(dl, sc.pack(d, mode))
    sc.check_bounds(outs, mode, target, f"{dl.cls.module.name}:{dl.cls.name}", name, exact=True)
