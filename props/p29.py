"""Changing the perturbation domain of a converted model."""
import re

from sa.scen import *
from props.survey import *
from props.p15 import judge, describe
from props.p28 import atoms_in

EXPLANATION = (
    "A network is converted for a ball of unknown radius, DecomonModel.set_domain is interpreted with other balls, and the graph of the converted "
    "model is interpreted again: its layers are called again, its raw operations recomputed. No value may then depend on the radius the model was "
    "converted for (rule stale), every concretisation on the input of the network must use the last domain set, which every layer run must hold "
    "(rules domain-used, domain-held), the bounds of the input entering the layers must be those of a model converted for that domain (rule "
    "as-converted), the model must report it (rule reported), and the domains of the user and the other models converted with them must be left "
    "unchanged (rule untouched). A domain of another type must be refused, leaving the model as it was (rule refused)."
)
H = "props.p29"
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "networks and orders of the norms are enumerated; radii, weights and bounds are unconstrained",
    "a converted model called on data runs its layers and operations in the order of its graph, compiled functions are not cached across set_domain",
]
LIMIT = {"quick": 120, "thorough": 600}
CONS = "decomon.models.models:DecomonModel.set_domain"
P = {"1": 1, "2": 2, "inf": float("inf")}


def obligations(tier):
    out = []
    deep = tier == "deep"
    chains = ("relu", "two-activations", "conv", "bn", "outputs") if not deep else tuple(k for k in CHAINS) + ("nested", "outputs", "output-inside")
    for kind in chains:
        for m in METHODS:
            for a, b in (("inf", "2"), ("2", "inf"), ("2", "1"), ("inf", "inf"), ("2", "2")) if kind == "relu" or deep else (("inf", "2"), ("2", "2")):
                for ft in (False, True) if kind in ("relu", "two-activations") and (a, b) == ("2", "2") else (False,):
                    out.append((f"{kind}/{m}/ball{a}-ball{b}{'/finetune' if ft else ''}", H, "changed", kind, m, (a, b), None, ft))
    for m in METHODS:
        for f in ((True, False), (False, True), (True, True)):
            out.append((f"relu/{m}/ball2-ball1/final-{'ibp' if f[0] else ''}{'affine' if f[1] else ''}", H, "changed", "relu", m, ("2", "1"), f, False))
        out.append((f"relu/{m}/ball2-ballinf-ball1", H, "changed", "relu", m, ("2", "inf", "1"), None, False))
        out.append((f"relu/{m}/ballinf-ball2-ballinf", H, "changed", "relu", m, ("inf", "2", "inf"), None, False))
        out.append((f"relu/{m}/box", H, "boxes", "relu", m))
        out.append((f"relu/{m}/type", H, "refused", "relu", m))
        out.append((f"relu/{m}/two-models", H, "two_models", "relu", m))
    for kind in ("branches", "skip", "concat"):
        for m in FORWARD:
            for a, b in (("inf", "2"), ("2", "2")):
                out.append((f"{kind}/{m}/ball{a}-ball{b}", H, "changed", kind, m, (a, b), None, False))
    return out


def ball(sc, p, k):
    t = tens(np.array(fresh(f"radius{k}", "0+"), dtype=object))
    d = sc.call(sc.core.d["BallDomain"], eps=t, p=P[p])
    return d, alg.atoms_of(t.a[()])


class Watch(Survey):
    """survey checking that no value computed in a layer depends on symbols of `stale`"""

    stale = None
    found = None

    def blur(self, o, r):
        if self.stale and o is not None:
            acc = atoms_in(r, set())
            if acc & self.stale and self.found is None:
                self.found = o
        return Survey.blur(self, o, r)


def replace(sv, d, dom, stale):
    """set the domain, run the model again; returns what was called"""
    sc = sv.sc
    sc.call(sc.attr(d, "set_domain"), dom)
    return again(sv, d, stale)


def again(sv, d, stale):
    sc = sv.sc
    sv.layers, sv.domains, sv.calls, sv.stack = [], [], [], []
    sv.stale, sv.found = stale, None
    x = tens(sv.X.copy())
    return sc.call(d, x)


def entering(sv, n0):
    """arguments of the layers run, restricted to tensors computed from the input of the network only"""
    out = []
    for f, args, kwargs in sv.calls:
        ts = args[1] if len(args) > 1 else kwargs.get("inputs")
        ts = ts if isinstance(ts, (list, tuple)) else [ts]
        out.append((args[0], [t for t in ts if isinstance(t, T)]))
    return out


def changed(rec, kind, method, ps, final, finetune):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    sv = Watch(sc)
    doms = [ball(sc, p, k) for k, p in enumerate(ps)]
    kw = {"final_ibp": final[0], "final_affine": final[1]} if final else {}
    what = f"{kind} {method}"
    d = sv.clone(net, doms[0][0], method=method, finetune=finetune, **kw)
    judge_raw(sv, what, doms[0][0])
    for k in range(1, len(ps)):
        D = doms[k][0]
        stale = set().union(*[a for j, (_, a) in enumerate(doms) if j != k])
        outs = replace(sv, d, D, stale)
        now = f"{what} converted for {', then set to '.join('ball' + p for p in ps[:k + 1])}"
        if atoms_in(outs, set()) & stale and sv.found is None:
            rec.bad("stale", CONS, f"{now}: the outputs still depend on the radius of a previous domain")
        rec.check(sv.found is None, "stale", qual_of(sv.found) if sv.found else CONS, f"{now}: the values computed by {sv.found.d.get('name') if sv.found else ''} still depend on the radius of a previous domain")
        judge(sv, D, now)
        judge_raw(sv, now, D)
        h = has(sc, d, "perturbation_domain")
        rec.check(h is D or same(sc, h, D), "reported", CONS, f"{now}: the model reports {describe(h)}")
        for j, (o, a) in enumerate(doms):
            rec.check(isinstance(o.d.get("eps"), T) and alg.atoms_of(o.d["eps"].a[()]) == a and o.d.get("p") == P[ps[j]], "untouched", CONS, f"{now}: the domain given by the user has been modified")
        sc.I.hooks.remove(sv.hook)
        ref = Watch(sc)
        again(ref, ref.clone(net, D, method=method, finetune=finetune, **kw), None)
        sc.I.hooks.remove(ref.hook)
        sc.I.hooks.append(sv.hook)
        compare(rec, sv, ref, now)


def compare(rec, sv, ref, now):
    a, b = entering(sv, 0), entering(ref, 0)
    if [l.cls for l, _ in a] != [l.cls for l, _ in b]:
        rec.undecided("as-converted", CONS, f"{now}: other layers are run by a model converted for the last domain")
        return
    n = 0
    for (l, s), (_, t) in zip(a, b):
        if len(s) != len(t):
            rec.bad("as-converted", qual_of(l), f"{now}: {l.d.get('name')} receives {len(s)} tensors, {len(t)} in a model converted for the last domain")
            continue
        for i, (u, v) in enumerate(zip(s, t)):
            if not known(sv, u) or not known(ref, v):
                continue
            n += 1
            x, y = ten.raw(u), ten.raw(v)
            ok = x.shape == y.shape and all(alg.is_zero(x[k] - y[k]) is True for k in np.ndindex(x.shape))
            rec.check(ok, "as-converted", qual_of(l), f"{now}: tensor {i} received by {l.d.get('name')} differs from the one of a model converted for the last domain")
    if not n:
        rec.undecided("as-converted", CONS, f"{now}: no bound of the input is compared")


def known(sv, t):
    """no symbol standing for the result of a layer"""
    return not any(re.match(r"v\d+\[", alg.ATOMS[a].name) for a in atoms_in(t, set()))


def judge_raw(sv, what, D):
    """concretisations outside of the layers are made once for all"""
    for f, o, x, lay in sv.domains:
        if lay is None and x is not None and sv.is_network_input(x):
            sv.sc.rec.check(o is D, "domain-used", f.qual, f"{what}: concretisation outside of the layers on {describe(o)}")


def same(sc, h, D):
    return isinstance(h, Obj) and h.cls is D.cls and h.d.get("p") == D.d.get("p") and h.d.get("eps") is D.d.get("eps")


def boxes(rec, kind, method):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    sv = Watch(sc)
    d = sv.clone(net, sc.box(), method=method)
    D = sc.box()
    replace(sv, d, D, None)
    judge(sv, D, f"{kind} {method} set to another box")
    rec.check(has(sc, d, "perturbation_domain") is D, "reported", CONS, f"{kind} {method}: another domain than the one set is reported")


def refused(rec, kind, method):
    for first, second in (("ball2", "box"), ("box", "ball2"), ("box", "ballinf")):
        sc = Scene(rec, nin_of(kind), 1)
        net = Net(sc, kind)
        sv = Watch(sc)
        D1, D2 = domain_of(sc, first), domain_of(sc, second)
        d = sv.clone(net, D1, method=method)
        try:
            sc.call(sc.attr(d, "set_domain"), D2)
            rec.bad("refused", CONS, f"{kind} {method}: a model converted for {first} accepts {second}, its inputs have another layout")
        except AbsRaise as e:
            rec.ok("refused", CONS)
            rec.check(has(sc, d, "perturbation_domain") is D1, "refused", CONS, f"{kind} {method}: {first} refused to become {second} but is reported as {describe(has(sc, d, 'perturbation_domain'))}")
            again(sv, d, None)
            judge(sv, D1, f"{kind} {method} after a refused domain")


def two_models(rec, kind, method):
    """models sharing layers of the user and the domain given for the conversion"""
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    sv = Watch(sc)
    (D1, a1), (D2, a2) = ball(sc, "2", 1), ball(sc, "inf", 2)
    d = sv.clone(net, D1, method=method)
    e = sv.clone(net, D1, method=method)
    replace(sv, e, D2, a1)
    what = f"{kind} {method}: a second model converted with the same domain"
    rec.check(sv.found is None, "stale", CONS, f"{what} still depends on it after set_domain")
    judge(sv, D2, what)
    again(sv, d, a2)
    what = f"{kind} {method}: a model whose domain has not been changed, after set_domain on another one"
    rec.check(sv.found is None, "untouched", CONS, f"{what}, depends on the new domain")
    judge(sv, D1, what)
    rec.check(has(sc, d, "perturbation_domain") is D1, "untouched", CONS, f"{what}, reports {describe(has(sc, d, 'perturbation_domain'))}")
