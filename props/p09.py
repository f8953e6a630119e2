"""Agreement on the tensors exchanged in a mode."""
from sa.scen import *

EXPLANATION = (
    "For every mode, flag and number of inputs, the packing, unpacking, splitting and shape functions are interpreted on lists of distinct "
    "symbolic tensors of distinct shapes: counts, order and shapes must agree and packing what was unpacked must give back the same tensors."
)
H = "props.p09"
C = "decomon.core:InputsOutputsSpec."
FULL = ("x", "u_c", "w_u", "b_u", "l_c", "w_l", "b_l", "h", "g")
ORDER = {HYBRID: list(FULL[:7]), IBP: ["u_c", "l_c"], AFFINE: ["x", "w_u", "b_u", "w_l", "b_l"]}


def obligations(tier):
    out = []
    for mode in MODES:
        for dc in (False, True):
            for dom in ("box", "ball"):
                for sh in ((3,), (2, 2)) + (((2, 1, 3),) if tier != "quick" else ()):
                    out.append((f"{mode}/dc{int(dc)}/{dom}/{len(sh)}d", H, "agree", mode, dc, dom, sh))
    return out


def agree(rec, mode, dc, dom, sh):
    sc = Scene(rec, 2, 1)
    D = sc.box() if dom == "box" else sc.call(sc.core.d["BallDomain"], eps=0.5, p=2)
    spec = sc.call(sc.core.d["InputsOutputsSpec"], dc_decomp=dc, mode=sc.mode(mode), perturbation_domain=D, model_input_dim=2)
    names = ORDER[mode] + (["h", "g"] if dc else [])
    shapes = {k: (1,) + sh for k in FULL}
    shapes["x"] = (1, 2, 2) if dom == "box" else (1, 2)
    shapes["w_u"] = shapes["w_l"] = (1, 2) + sh
    mk = lambda tag: {k: base_tensor(shapes[k], f"{tag}{k}") for k in FULL}
    a, b = mk("a"), mk("b")
    f = lambda n: sc.attr(spec, n)
    rec.check(sc.attr(spec, "nb_tensors") == len(names), "tensor-count", C + "nb_tensors", f"{sc.attr(spec, 'nb_tensors')} for {names}")
    same = lambda got, want: len(got) == len(want) and all(x is y for x, y in zip(got, want))
    ext = lambda d: list(sc.call(f("extract_inputsformode_from_fullinputs"), [d[k] for k in FULL]))
    show = lambda got, d: [next((k for k in FULL if d[k] is t), "?") for t in got]
    want = [a[k] for k in names]
    got = ext(a)
    rec.check(same(got, want), "order", C + "extract_inputsformode_from_fullinputs", f"{show(got, a)} instead of {names}")
    got = list(sc.call(f("extract_outputsformode_from_fulloutputs"), [a[k] for k in FULL]))
    rec.check(same(got, want), "order", C + "extract_outputsformode_from_fulloutputs", f"{show(got, a)} instead of {names}")
    full = list(sc.call(f("get_fullinputs_from_inputsformode"), want, compute_ibp_from_affine=False, tight=False))
    rec.check(len(full) == 9 and all(full[FULL.index(k)] is a[k] for k in names), "order", C + "get_fullinputs_from_inputsformode", "positions of the tensors")
    if len(full) == 9:
        got = list(sc.call(f("extract_inputsformode_from_fullinputs"), full))
        rec.check(same(got, want), "round-trip", C + "extract_inputsformode_from_fullinputs", f"{show(got, a)} instead of {names}")
    both = want + [b[k] for k in names]
    parts = sc.call(f("split_inputsformode_to_merge"), both)
    rec.check(len(parts) == 2 and same(parts[0], want) and same(parts[1], both[len(names):]), "order", C + "split_inputsformode_to_merge", "inputs to merge")
    merged = sc.call(f("get_fullinputs_by_type_from_inputsformode_to_merge"), both, compute_ibp_from_affine=False, tight=False)
    ok = len(merged) == 9 and all(len(merged[FULL.index(k)]) == 2 and merged[FULL.index(k)][0] is a[k] and merged[FULL.index(k)][1] is b[k] for k in names)
    rec.check(ok, "order", C + "get_fullinputs_by_type_from_inputsformode_to_merge", "positions of the tensors")
    rec.check(tuple(sc.call(f("get_kerasinputshape"), want)) == (1,) + sh, "shapes", C + "get_kerasinputshape", "")
    sl = [shapes[k] for k in names]
    rec.check(tuple(sc.call(f("get_kerasinputshape_from_inputshapesformode"), sl)) == (1,) + sh, "shapes", C + "get_kerasinputshape_from_inputshapesformode", "")
    fs = list(sc.call(f("get_fullinputshapes_from_inputshapesformode"), sl))
    rec.check(len(fs) == 9 and all(tuple(fs[FULL.index(k)]) == shapes[k] for k in names), "shapes", C + "get_fullinputshapes_from_inputshapesformode", f"{fs}")
    if len(fs) == 9:
        rec.check(tuple(fs[0]) == shapes["x"], "shapes", C + "get_fullinputshapes_from_inputshapesformode", f"input shape {fs[0]} instead of {shapes['x']}")
        got = [tuple(s) for s in sc.call(f("extract_inputshapesformode_from_fullinputshapes"), fs)]
        rec.check(got == sl, "round-trip", C + "extract_inputshapesformode_from_fullinputshapes", f"{got} instead of {sl}")
