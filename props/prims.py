"""Specifications of the bound-propagating primitives.

Each entry says which tensor function the primitive over-approximates; P05 verifies the primitives against these
specifications (modulo the specifications of the primitives they call), the other properties use them in place of the bodies.
"""
from sa.scen import *
from sa.interp import Env, MISSING
from sa import alg, ten


def K(sc):
    return sc.mod("keras.ops").d


def _axis(a, default=-1):
    v = a.get("axis", default)
    return int(v) if not isinstance(v, T) else None


SPEC = {
    "decomon.utils:add": lambda sc, a, y: sc.call(K(sc)["add"], y[0], y[1]),
    "decomon.utils:subtract": lambda sc, a, y: sc.call(K(sc)["subtract"], y[0], y[1]),
    "decomon.utils:minus": lambda sc, a, y: sc.call(K(sc)["negative"], y[0]),
    "decomon.utils:maximum": lambda sc, a, y: sc.call(K(sc)["maximum"], y[0], y[1]),
    "decomon.utils:minimum": lambda sc, a, y: sc.call(K(sc)["minimum"], y[0], y[1]),
    "decomon.utils:relu_": lambda sc, a, y: sc.call(K(sc)["relu"], y[0]),
    "decomon.layers.utils:max_": lambda sc, a, y: sc.call(K(sc)["max"], y[0], axis=_axis(a)),
    "decomon.layers.utils:min_": lambda sc, a, y: sc.call(K(sc)["min"], y[0], axis=_axis(a)),
    "decomon.layers.utils:sum": lambda sc, a, y: sc.call(K(sc)["sum"], y[0], axis=_axis(a)),
    "decomon.layers.utils:multiply": lambda sc, a, y: sc.call(K(sc)["multiply"], y[0], y[1]),
    "decomon.layers.utils:pow": lambda sc, a, y: sc.call(K(sc)["multiply"], y[0], y[0]),
    "decomon.layers.utils:abs": lambda sc, a, y: sc.call(K(sc)["abs"], y[0]),
    "decomon.layers.utils:sort": lambda sc, a, y: sc.call(K(sc)["sort"], y[0], axis=_axis(a)),
    "decomon.layers.utils:expand_dims": lambda sc, a, y: sc.call(K(sc)["expand_dims"], y[0], _axis(a)),
    "decomon.layers.utils:exp": lambda sc, a, y: sc.call(K(sc)["exp"], y[0]),
    "decomon.layers.utils:log": lambda sc, a, y: sc.call(K(sc)["log"], y[0]),
    "decomon.layers.utils:frac_pos": lambda sc, a, y: sc.call(K(sc)["divide"], 1.0, y[0]),
    "decomon.layers.utils:softplus_": lambda sc, a, y: sc.call(K(sc)["softplus"], y[0]),
}
# primitives whose value the analysis compares as uninterpreted data movement are not in SPEC: they are always interpreted


def install(sc, *names, but=()):
    for q, f in SPEC.items():
        n = q.split(":")[1]
        if (not names or n in names) and n not in but:
            sc.contract(q, f)


def fullinputs_contract(sc):
    """concretised bounds returned by the input splitter: abstracted to arbitrary enclosing values (the splitter itself is P08)"""
    q = "decomon.core:InputsOutputsSpec.get_fullinputs_from_inputsformode"
    busy = []

    def hook(f, args, kwargs):
        if f.qual != q or busy:
            return MISSING
        env = Env(f.env, f.module, f, {})
        sc.I.bind_args(f, env, args, kwargs)
        a = env.vars
        mode = str(sc.attr(sc.attr(a["self"], "mode"), "value"))
        if mode == IBP:
            return MISSING
        lst = [v for v in a.values() if isinstance(v, (list, tuple)) and v and all(isinstance(t, T) for t in v)]
        y = sc.ghost_of(list(lst[0]), mode) if len(lst) == 1 else None
        if y is None:
            return MISSING
        busy.append(1)
        try:
            r = sc.I.call(f, args, kwargs)
        finally:
            busy.pop()
        r = list(r)
        Y = ten.raw(y)
        if mode == AFFINE:
            ref = {1: sc.affine_value(r[2], r[3]), 4: sc.affine_value(r[5], r[6])}
        else:
            ref = {1: Y, 4: Y}
        for k, sg in ((1, 1), (4, -1)):
            if not isinstance(r[k], T) or ten.raw(r[k]).shape != Y.shape:
                continue
            sc.nfull = getattr(sc, "nfull", 0) + 1
            v = arr(Y.shape, lambda i: ref[k][i] + const(sg) * sc.slack(f"f{sc.nfull}{list(i)}"))
            r[k] = tens(v)
        return r

    sc.I.hooks.append(hook)


def hull_contract(sc, qual, fn):
    """get_linear_hull_xxx(upper, lower, slope): slopes w >= 0 and w.y + b on the right side of fn(y) for the enclosed y"""

    def hook(f, args, kwargs):
        if f.qual != qual:
            return MISSING
        env = Env(f.env, f.module, f, {})
        sc.I.bind_args(f, env, args, kwargs)
        U, L = ten.raw(env.vars["upper"]), ten.raw(env.vars["lower"])
        ids = sc.ghost_ids()
        y, y2 = sc.drop_ids(U, ids), sc.drop_ids(L, ids)
        for i in np.ndindex(y.shape):
            if alg.is_zero(y[i] - y2[i]) is not True or alg.nonneg(U[i] - y[i]) is not True or alg.nonneg(y[i] - L[i]) is not True:
                return MISSING
        Z = ten.raw(fn(sc, tens(y)))
        sc.nhull = getattr(sc, "nhull", 0) + 1
        out = []
        for s, sg in (("u", 1), ("l", -1)):
            w = arr(y.shape, lambda i: fresh(f"hw{s}{sc.nhull}{list(i)}", "0+"))
            b = arr(y.shape, lambda i: Z[i] + const(sg) * sc.slack(f"hs{s}{sc.nhull}{list(i)}") - w[i] * y[i])
            out += [tens(w), tens(b)]
        return out

    sc.I.hooks.append(hook)
