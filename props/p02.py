"""Forward propagation through merging layers."""
from sa.scen import *
from props.prims import install, fullinputs_contract
from props.p12 import keras_merge
from props.p01 import decomon_of

EXPLANATION = (
    "Each Decomon merge layer is interpreted on abstract bounds enclosing one ghost activation per input; every output bound minus the "
    "value the Keras merge layer computes on the ghosts must be nonnegative (rule sound) and, for layers affine in their inputs, zero "
    "when the input bounds carry no slack (rule exact). Primitives verified by P05 are replaced by their specifications."
)
H = "props.p02"
EXACT = ("Add", "Subtract", "Average", "Concatenate")


def cases(tier):
    cs = []
    for n in ("Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply"):
        cs.append((n, n, {}, [(2,)] * 2, False))
        cs.append((n + "-2d", n, {}, [(2, 2)] * 2, False))
        if n != "Subtract":
            cs.append((n + "-x3", n, {}, [(2,)] * 3, False))
        cs.append((n + "-box", n, {}, [(2,)] * 2, True))
    cs += [
        ("Concatenate", "Concatenate", {}, [(2,), (3,)], False),
        ("Concatenate-x3", "Concatenate", {}, [(2,), (1,), (2,)], False),
        ("Concatenate-2d", "Concatenate", {}, [(2, 1), (2, 2)], False),
        ("Concatenate-axis1", "Concatenate", {"axis": 1}, [(1, 2), (2, 2)], False),
        ("Concatenate-axis1-1d", "Concatenate", {"axis": 1}, [(1,), (2,)], False),
        ("Concatenate-axis2", "Concatenate", {"axis": 2}, [(2, 1), (2, 2)], False),
        ("Concatenate-axis-2", "Concatenate", {"axis": -2}, [(1, 2), (2, 2)], False),
        ("Dot", "Dot", {"axes": 1}, [(2,), (2,)], False),
        ("Dot-last", "Dot", {"axes": -1}, [(2,), (2,)], False),
        ("Dot-2d", "Dot", {"axes": (1, 1)}, [(2, 3), (2, 2)], False),
        ("Dot-2d-last", "Dot", {"axes": (-1, -1)}, [(3, 2), (1, 2)], False),
        ("Dot-2d-mixed", "Dot", {"axes": (2, 1)}, [(3, 2), (2, 1)], False),
    ]
    if tier != "quick":
        for n in ("Add", "Average", "Maximum", "Minimum", "Multiply"):
            cs.append((n + "-x4", n, {}, [(1,)] * 4, False))
        for n in ("Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply"):
            cs.append((n + "-3d", n, {}, [(1, 2, 2)] * 2, False))
            cs.append((n + "-2d-box", n, {}, [(1, 2)] * 2, True))
        cs += [("Concatenate-4d", "Concatenate", {"axis": 3}, [(1, 2, 1), (1, 2, 2)], False),
               ("Concatenate-4d-1", "Concatenate", {"axis": 1}, [(1, 2, 1), (2, 2, 1)], False)]
    return cs


USED = ("add", "subtract", "minus", "maximum", "minimum", "relu_", "multiply", "sum", "permute_dimensions", "broadcast")


def obligations(tier):
    from props import p05
    prims = [("prim/" + o[0], *o[1:]) for o in p05.obligations(tier, only=USED)]
    return prims + [(f"{oid}/{mode}", H, "merge", name, kw, shapes, full, mode) for oid, name, kw, shapes, full in cases(tier) for mode in MODES]


def merge(rec, name, kw, shapes, full, mode):
    sc = Scene(rec, 1 if len(shapes) > 2 else 2, 1)
    lay = keras_merge(sc, name, shapes, **kw)
    ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
    target = sc.call(lay, ys)
    ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    install(sc, "add", "subtract", "minus", "maximum", "minimum", "relu_", "multiply")
    sc.symbolic = True
    dl = decomon_of(sc, lay, mode, sc.nin)
    sc.symbolic = False
    x = sc.x_box()
    ins = [t for d in ds for t in sc.pack(d, mode, x)]
    if not full:
        fullinputs_contract(sc)
    outs = sc.call(dl, ins)
    sc.check_bounds(outs, mode, target, f"{dl.cls.module.name}:{dl.cls.name}", f"{name}{kw or ''} {shapes}", exact=name in EXACT)
