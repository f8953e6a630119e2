"""What a conversion method runs and returns."""
from sa.scen import *
from props.models import *
from props.survey import *

EXPLANATION = (
    "The table of methods is interpreted for every member and spelling (rule table). clone() is interpreted for every method, spelling of the method, "
    "combination of final flags, and networks with one or several outputs, on boxes and balls: forward and backward layers run by the converted model must "
    "be those the method names, in the mode it names (rule passes); the kinds of bounds the model reports must be those requested (rule "
    "reported), and the tensors returned for each output must be those of that mode, with their shapes (rule returned). Reporting a kind of bounds that "
    "is not returned is a violation whatever the flags."
)
H = "props.p23"
LIMIT = {"quick": 120, "thorough": 600}
ASSUMPTIONS = [
    "Keras layers, models and keras.ops primitives behave as their transfer-function summaries under sa/stubs and sa/ten.py",
    "networks and combinations of flags are enumerated",
]
# (forward pass, backward pass, constant bounds, affine bounds) named by the methods
MEANS = {
    "crown": (False, True, True, False),
    "crown-forward-ibp": (True, True, True, False),
    "crown-forward-affine": (True, True, False, True),
    "crown-forward-hybrid": (True, True, True, True),
    "forward-ibp": (True, False, True, False),
    "forward-affine": (True, False, False, True),
    "forward-hybrid": (True, False, True, True),
}
FLAGS = (None, True, False)
SPELL = {"name": str, "upper": lambda m: m.upper(), "title": lambda m: m.title(), "member": None}


def obligations(tier):
    out = []
    for m in METHODS:
        for s in SPELL:
            out.append((f"table/{m}/{s}", H, "table", m, s))
            out.append((f"relu/{m}/{s}", H, "conversion", "relu", m, s, None, None, "box"))
    kinds = ("relu", "outputs") + (("two-activations", "conv", "nested", "dense", "output-inside", "activation-twice") if tier == "deep" else ())
    for kind in kinds:
        for m in METHODS:
            for fi in FLAGS:
                for fa in FLAGS:
                    out.append((f"{kind}/{m}/{fi}-{fa}/box", H, "conversion", kind, m, "name", fi, fa, "box"))
                    if kind == "relu" or tier == "deep":
                        for dom in ("ball2", "ballinf"):
                            out.append((f"{kind}/{m}/{fi}-{fa}/{dom}", H, "conversion", kind, m, "name", fi, fa, dom))
    for m in METHODS:
        for first in METHODS:
            if first != m:
                out.append((f"relu/{m}/after-{first}", H, "conversion", "relu", m, "name", None, None, "box", (first, "box", {})))
    for kind in ("branches", "skip"):
        for m in FORWARD:
            for fi in FLAGS:
                for fa in FLAGS:
                    out.append((f"{kind}/{m}/{fi}-{fa}/box", H, "conversion", kind, m, "name", fi, fa, "box"))
    return out


def spelled(sc, m, s):
    if s == "member":
        return sc.call(sc.get("decomon.models.utils", "ConvertMethod"), m)
    return SPELL[s](m)


def table(rec, m, s):
    sc = Scene(rec, 2, 1)
    fwd, bwd, ibp, affine = MEANS[m]
    v = spelled(sc, m, s)
    for name, want in (("get_ibp_affine_from_method", (ibp, affine)), ("get_direction", "feed_backward" if bwd else "feed_forward")):
        f = sc.get("decomon.models.utils", name)
        try:
            r = sc.call(f, v)
        except AbsRaise as e:
            if s in ("name", "member"):
                rec.bad("table", f.qual, f"{v} raises {e.typename()}", e.where)
            continue  # other spellings are left to the conversion
        got = tuple(r) if isinstance(r, (list, tuple)) else str(sc.attr(r, "value"))
        rec.check(got == want, "table", f.qual, f"{m} ({s}): {got} instead of {want}")


def flag(rec, o, sc, name):
    v = sc.attr(o, name)
    return bool(v) if isinstance(v, bool) else v


def conversion(rec, kind, m, s, fi, fa, dom, before=None):
    sc = Scene(rec, nin_of(kind), 1)
    net = Net(sc, kind)
    earlier(sc, net, before)
    targets = sc.call(net.model, tens(sc.X))
    targets = list(targets) if isinstance(targets, (list, tuple)) else [targets]
    shapes = [tuple(ten.raw(t).shape) for t in targets]
    sv = Survey(sc)
    cons = "decomon.models.convert:clone"
    fwd, bwd, ibp, affine = MEANS[m]
    what = f"{kind} {m} ({s}) final_ibp={fi} final_affine={fa} {dom}"
    kw = {k: v for k, v in (("final_ibp", fi), ("final_affine", fa)) if v is not None}
    method = spelled(sc, m, s)
    try:
        d = sv.clone(net, domain_of(sc, dom), method=method, **kw)
    except AbsRaise as e:
        want_i, want_a = ibp if fi is None else fi, affine if fa is None else fa
        ok = e.typename() in ("ValueError", "NotImplementedError") and not (want_i or want_a)
        rec.check(ok, "returned", cons, f"{what}: {e.typename()}", e.where)
        return
    want_i, want_a = ibp if fi is None else fi, affine if fa is None else fa
    got_i, got_a = flag(rec, d, sc, "ibp"), flag(rec, d, sc, "affine")
    if want_i or want_a:
        rec.check((got_i, got_a) == (want_i, want_a), "reported", cons, f"{what}: the model reports ibp={got_i}, affine={got_a}")
    rec.check(got_i or got_a, "reported", cons, f"{what}: the model reports neither constant nor affine bounds and returns some")
    mm = sc.attr(d, "method")
    rec.check(str(getattr(mm, "value", mm)) == m, "reported", cons, f"{what}: the model reports method {getattr(mm, 'value', mm)}")
    # tensors of the mode reported
    outs = list(sc.attr(d, "outputs"))
    mode = HYBRID if got_i and got_a else IBP if got_i else AFFINE
    names = {HYBRID: ("x", "u_c", "w_u", "b_u", "l_c", "w_l", "b_l"), IBP: ("u_c", "l_c"), AFFINE: ("x", "w_u", "b_u", "w_l", "b_l")}[mode]
    k = len(names)
    rec.check(len(outs) == k * len(shapes), "returned", cons, f"{what}: {len(outs)} tensors for {len(shapes)} outputs in mode {mode}")
    if len(outs) == k * len(shapes):
        for i, sh in enumerate(shapes):
            for n, t in zip(names, outs[k * i: k * i + k]):
                got = tuple(ten.raw(t).shape)
                if n == "x":
                    ok = sv.is_network_input(t)
                    rec.check(ok, "returned", cons, f"{what}: the first tensor of output {i} is not the domain given to the model")
                    continue
                want = sh if n[0] != "w" else (sh[0], sc.nin) + sh[1:]
                # affine bounds may use the flattened output (backward passes) only when it has one axis
                rec.check(got == want, "returned", cons, f"{what}: {n} of output {i} has shape {got} instead of {want}")
    # passes
    mode_m = HYBRID if ibp and affine else IBP if ibp else AFFINE
    F = [l for l in sv.layers if is_a(l, "DecomonLayer")]
    Bk = [l for l in sv.layers if is_a(l, "BackwardLayer")]
    rec.check(bool(F) == fwd or (m == "crown" and not F), "passes", cons, f"{what}: {len(F)} forward layers run")
    rec.check(bool(Bk) == bwd, "passes", cons, f"{what}: {len(Bk)} backward layers run")
    for l in F + Bk:
        lm = mode_of(sc, l)
        rec.check(lm == mode_m, "passes", qual_of(l), f"{what}: {l.d.get('name')} runs in mode {lm} instead of {mode_m}")
    if fwd:
        # every layer is propagated forward, every layer is propagated backward
        kl = [x for x in net.l.values()]
        rec.check(len(F) >= len(kl) or kind == "activation-twice", "passes", cons, f"{what}: {len(F)} forward layers run for {len(kl)} layers")
