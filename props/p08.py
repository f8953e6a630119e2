"""Expansion of the bounds of a mode to the full set."""
from sa.scen import *

EXPLANATION = (
    "The functions expanding the tensors of a mode are interpreted on bounds enclosing ghost values, one per merged input: every constant bound "
    "they return must enclose its ghost (rule sound) and be at least as tight as each source it is computed from (rule tight); affine bounds, "
    "input and difference-of-convex tensors must be returned unchanged."
)
H = "props.p08"
NAMES = ("x", "u_c", "w_u", "b_u", "l_c", "w_l", "b_l", "h", "g")
SPLIT = "decomon.core:InputsOutputsSpec.get_fullinputs_from_inputsformode"
MERGE = "decomon.core:InputsOutputsSpec.get_fullinputs_by_type_from_inputsformode_to_merge"


def obligations(tier):
    out = []
    for mode in MODES:
        for comp in (True, False):
            for tight in (True, False):
                for dc in (False, True):
                    for dom in ("box", "ball2"):
                        if dom != "box" and (dc or tier == "quick" and not (comp and tight)):
                            continue
                        for n in (1, 2, 3) if tier != "quick" else (1, 2):
                            for batch in (1, 2) if tier != "quick" else (1,):
                                out.append((f"{mode}/affine{int(comp)}/tight{int(tight)}/dc{int(dc)}/{dom}/n{n}/b{batch}", H, "expand", mode, comp, tight, dc, dom, n, batch))
    return out


def expand(rec, mode, comp, tight, dc, dom, n, batch):
    sc = Scene(rec, 2, batch)
    if dom == "box":
        D, x = sc.box(), sc.x_box()
    else:
        D, x = sc.call(sc.core.d["BallDomain"], eps=0.5, p=2), tens(sc.X)
    ys = [sc.ghost((2,), f"y{i}") for i in range(n)]
    ds = [sc.bounds(y, f"i{i}") for i, y in enumerate(ys)]
    ins = []
    for i, d in enumerate(ds):
        d["x"] = x
        d["h"], d["g"] = base_tensor((batch, 2), f"h{i}"), base_tensor((batch, 2), f"g{i}")
        ins += sc.pack(d, mode, x) + ([d["h"], d["g"]] if dc else [])
    spec = sc.call(sc.core.d["InputsOutputsSpec"], dc_decomp=dc, mode=sc.mode(mode), perturbation_domain=D)
    before = list(ins)
    full = []
    if n == 1:
        full.append((SPLIT, sc.call(sc.attr(spec, "get_fullinputs_from_inputsformode"), ins, compute_ibp_from_affine=comp, tight=tight)))
    r = sc.call(sc.attr(spec, "get_fullinputs_by_type_from_inputsformode_to_merge"), ins, compute_ibp_from_affine=comp, tight=tight)
    if len(r) != 9 or any(len(l) != n for l in r):
        rec.bad("tensor-count", MERGE, f"{[len(l) for l in r]} tensors per kind for {n} inputs")
    else:
        for i in range(n):
            full.append((MERGE, [l[i] for l in r], i))
    rec.check(len(before) == len(ins) and all(a is b for a, b in zip(before, ins)), "input-list-untouched", MERGE, "the caller's list was modified")
    for cons, t, *i in full:
        i = i[0] if i else 0
        one(rec, sc, cons, list(t), ds[i], ten.raw(ys[i]), mode, comp, tight, dc, D, x)


def one(rec, sc, cons, t, d, Y, mode, comp, tight, dc, D, x):
    if len(t) != 9:
        rec.bad("tensor-count", cons, f"{len(t)} tensors, 9 expected")
        return
    r = dict(zip(NAMES, t))
    given = {HYBRID: NAMES[:7], IBP: ("u_c", "l_c"), AFFINE: ("x", "w_u", "b_u", "w_l", "b_l")}[mode] + (("h", "g") if dc else ())
    conc = (comp and mode == AFFINE) or (tight and mode == HYBRID)
    for k in NAMES:
        if k in ("u_c", "l_c"):
            continue
        if k in given:
            a, b = ten.raw(r[k]), ten.raw(d[k])
            rec.check(a.shape == b.shape and all(alg.is_zero(a[j] - b[j]) is True for j in np.ndindex(a.shape)), "unchanged", cons, f"{k} in mode {mode}")
    for k, sg, side in (("u_c", 1, "get_upper"), ("l_c", -1, "get_lower")):
        v = ten.raw(r[k])
        src = []
        if mode != AFFINE:
            src.append(ten.raw(d[k]))
        if conc:
            src.append(ten.raw(sc.call(sc.attr(D, side), x, d["w_" + k[0]], d["b_" + k[0]])))
        if not src:
            continue
        if v.shape != Y.shape:
            rec.bad("shapes", cons, f"{k} has shape {v.shape}, bounded value {Y.shape}")
            continue
        if D.cls.name == "BoxDomain":
            rec.nonneg(tens((v - Y) * sg), "sound", cons, f"{k} mode {mode} tight {tight}")
        for s in src:
            rec.nonneg(tens((s - v) * sg), "tight", cons, f"{k} mode {mode} tight {tight}")
        if len(src) == 1:
            rec.zero(tens(s - v), "tight", cons, f"{k} mode {mode}")
