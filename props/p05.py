"""Composite bound-propagating primitives against their specifications."""
from sa.scen import *
from props.prims import SPEC, install, fullinputs_contract, hull_contract, K

EXPLANATION = (
    "Each primitive (sum, difference, maximum, minimum, product, relu, absolute value, sort, split, axis operations) is interpreted on abstract "
    "bounds enclosing ghost operands; its result must enclose the operation applied to the ghosts (rule sound), exactly when it is affine "
    "(rule exact). Primitives it calls are replaced by the specifications they are checked against here."
)
H = "props.p05"
U = "decomon.utils:"
L = "decomon.layers.utils:"

CASES = [
    # id, function, shapes, extra keyword arguments, contracts for callees, exact
    ("add", U + "add", [(2,), (2,)], {}, (), True),
    ("add-2d", U + "add", [(2, 2), (2, 2)], {}, (), True),
    ("minus", U + "minus", [(2,)], {}, (), True),
    ("subtract", U + "subtract", [(2,), (2,)], {}, ("add", "minus"), True),
    ("maximum", U + "maximum", [(2,), (2,)], {}, ("subtract", "relu_", "add"), False),
    ("maximum-2d", U + "maximum", [(2, 2), (2, 2)], {}, ("subtract", "relu_", "add"), False),
    ("minimum", U + "minimum", [(2,), (2,)], {}, ("minus", "maximum"), False),
    ("relu_", U + "relu_", [(2,)], {}, (), False),
    ("relu_-2d", U + "relu_", [(2, 2)], {}, (), False),
    ("max_-last", L + "max_", [(3,)], {"axis": -1}, ("maximum",), False),
    ("max_-2d", L + "max_", [(2, 2)], {"axis": -1}, ("maximum",), False),
    ("max_-axis1", L + "max_", [(2, 3)], {"axis": 1}, ("maximum",), False),
    ("max_-axis2", L + "max_", [(2, 3)], {"axis": 2}, ("maximum",), False),
    ("min_-last", L + "min_", [(3,)], {"axis": -1}, ("max_", "minus"), False),
    ("min_-axis1", L + "min_", [(2, 3)], {"axis": 1}, ("max_", "minus"), False),
    ("multiply", L + "multiply", [(2,), (2,)], {}, (), False),
    ("multiply-2d", L + "multiply", [(1, 2), (1, 2)], {}, (), False),
    ("multiply-broadcast", L + "multiply", [(2, 2), (2, 1)], {}, (), False),
    ("multiply-broadcast1", L + "multiply", [(1, 2), (2, 2)], {}, (), False),
    ("pow", L + "pow", [(2,)], {}, ("multiply",), False),
    ("abs", L + "abs", [(2,)], {}, ("relu_", "minus", "add"), False),
    ("sum", L + "sum", [(3,)], {"axis": -1}, (), True),
    ("sum-axis1", L + "sum", [(2, 3)], {"axis": 1}, (), True),
    ("sum-axis2", L + "sum", [(2, 3)], {"axis": 2}, (), True),
    ("expand_dims", L + "expand_dims", [(3,)], {"axis": -1}, (), True),
    ("expand_dims-1", L + "expand_dims", [(2, 3)], {"axis": 1}, (), True),
    ("expand_dims-2", L + "expand_dims", [(2, 3)], {"axis": 2}, (), True),
    ("sort2", L + "sort", [(2,)], {"axis": -1}, ("maximum", "minimum"), False),
    ("sort-axis1", L + "sort", [(2, 2)], {"axis": 1}, ("maximum", "minimum"), False),
    ("split", L + "split", [(3,)], {"axis": -1}, (), True),
    ("split-axis1", L + "split", [(2, 3)], {"axis": 1}, (), True),
    ("split-axis2", L + "split", [(2, 3)], {"axis": 2}, (), True),
    ("permute_dimensions-1", L + "permute_dimensions", [(2, 3)], {"axis": 1}, (), True),
    ("permute_dimensions-2", L + "permute_dimensions", [(2, 3)], {"axis": 2}, (), True),
    ("permute_dimensions--1", L + "permute_dimensions", [(2, 3)], {"axis": -1}, (), True),
    ("permute_dimensions-3", L + "permute_dimensions", [(1, 2, 3)], {"axis": 3}, (), True),
    ("sum--2", L + "sum", [(2, 3)], {"axis": -2}, (), True),
    ("sum--1", L + "sum", [(2, 3)], {"axis": -1}, (), True),
    ("max_--2", L + "max_", [(2, 2)], {"axis": -2}, ("maximum",), False),
    ("min_--2", L + "min_", [(2, 2)], {"axis": -2}, ("max_", "minus"), False),
    ("expand_dims--2", L + "expand_dims", [(2, 3)], {"axis": -2}, (), True),
    ("expand_dims--1", L + "expand_dims", [(2, 3)], {"axis": -1}, (), True),
    ("sort--2", L + "sort", [(2, 2)], {"axis": -2}, ("maximum", "minimum"), False),
    ("split--2", L + "split", [(2, 3)], {"axis": -2}, (), True),
    ("permute_dimensions--2", L + "permute_dimensions", [(1, 2, 3)], {"axis": -2}, (), True),
    ("broadcast--2", L + "broadcast", [(2, 2)], {"n": 1, "axis": -2}, (), True),
    ("broadcast--2n", L + "broadcast", [(2,)], {"n": 2, "axis": -2}, (), True),
    ("broadcast-last", L + "broadcast", [(2,)], {"n": 1, "axis": -1}, (), True),
    ("broadcast-2", L + "broadcast", [(2, 2)], {"n": 2, "axis": 2}, (), True),
]


def obligations(tier, only=None):
    out = []
    for c in CASES:
        for mode in MODES:
            if only is None or c[1].split(":")[1] in only:
                out.append((f"{c[0]}/{mode}", H, "prim", *c[1:], mode))
                if tier != "quick":
                    out.append((f"{c[0]}/{mode}/b2", H, "prim", *c[1:], mode, 2))
    return out


def target_of(sc, q, ys, kw):
    n = q.split(":")[1]
    k = K(sc)
    if n == "split":
        ax = kw["axis"]
        Y = ten.raw(ys[0])
        return [tens(a) for a in np.split(Y, Y.shape[ax], axis=ax)]
    if n == "sort":  # sorting network
        Y = np.moveaxis(ten.raw(ys[0]).copy(), kw["axis"], -1).copy()
        for i in range(Y.shape[-1] - 1):
            for j in range(i + 1, Y.shape[-1]):
                for r in np.ndindex(*Y.shape[:-1]):
                    a, b = Y[r + (i,)], Y[r + (j,)]
                    Y[r + (i,)], Y[r + (j,)] = alg.pmin(a, b), alg.pmax(a, b)
        return tens(np.moveaxis(Y, -1, kw["axis"]))
    if n == "permute_dimensions":
        Y = ten.raw(ys[0])
        return tens(np.moveaxis(Y, kw["axis"], 1))
    if n == "broadcast":
        Y = ten.raw(ys[0])
        for _ in range(kw["n"]):
            Y = np.expand_dims(Y, kw["axis"])
        return tens(Y)
    return SPEC[q](sc, kw, ys)


def prim(rec, q, shapes, kw, callees, exact, mode, batch=1):
    sc = Scene(rec, 2 if batch == 1 else 1, batch)
    mod, name = q.split(":")
    f = sc.get(mod, name)
    ys = [sc.ghost(s, f"y{i}") for i, s in enumerate(shapes)]
    if name == "multiply" and mode == IBP:
        ds = []
        for i, s in enumerate(shapes):  # described from the lower bound: its sign decides the products
            low = ten.raw(jordan_tensor((batch,) + s, f"L{i}"))
            y = tens(arr(low.shape, lambda j: low[j] + fresh(f"s{i}{list(j)}", "0+")))
            ds.append({"l_c": tens(low), "y": y, "u_c": tens(arr(low.shape, lambda j: ten.raw(y)[j] + fresh(f"t{i}{list(j)}", "0+")))})
            ys[i] = y
    else:
        ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    target = target_of(sc, q, ys, kw)
    x = sc.x_box()
    ins = [sc.pack(d, mode, x) for d in ds]
    install(sc, *callees) if callees else None
    if name in ("relu_", "multiply"):
        fullinputs_contract(sc)
        hull_contract(sc, "decomon.utils:get_linear_hull_relu", lambda sc, y: sc.call(K(sc)["relu"], y))
    outs = sc.call(f, *ins, mode=sc.mode(mode), perturbation_domain=sc.box(), **kw)
    if name == "split":
        if not isinstance(outs, list) or len(outs) != len(target):
            rec.bad("tensor-count", q, f"{len(target)} pieces expected")
            return
        for o, t in zip(outs, target):
            sc.check_bounds(o, mode, t, q, name, exact=True)
        return
    sc.check_bounds(list(outs), mode, target, q, f"{name} {kw or ''}", exact=exact)
