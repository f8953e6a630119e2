"""Soundness of the queries."""
from props.queries import *

EXPLANATION = (
    "The queries of src/decomon/wrapper.py are interpreted on unknown boxes and samples against a converted model whose predictions are arbitrary "
    "bounds of an arbitrary output. Ranges must enclose that output at an arbitrary point of the box, scores must be at least the margin of every "
    "target over every source (rule sound), with equality when the bounds are exact and the box a point (rule exact); over balls the result must be "
    "the extremum given by the perturbation domain (P07); check_adv_box must not exceed the largest margin the bounds guarantee to be reached. The arrays the queries read must be the outputs of the model, in order (rule predictions)."
)
H = "props.queries"
ASSUMPTIONS = [
    "the bounds returned by the converted model are sound (P14), extrema over domains are decided by P07",
    "labels are masks over the outputs when there are as many labels as outputs, indices of outputs otherwise",
    "real arithmetic; numbers of boxes, outputs and inputs are enumerated, corners, samples and bounds are unconstrained",
]
LIMIT = {"quick": 100, "thorough": 600}
LABELS = ("onehot", "onehot-target", "masks", "int", "int-target", "list", "indices")


def obligations(tier):
    out = []
    deep = True  # affordable on every change
    more = tier == "deep"
    for mode in MODES:
        for nin in (2, 3) if deep else (2,):
            out.append((f"range/{mode}/in{nin}", H, "range_box", mode, 1, -1, 1, (0,), None, "get_range_box", nin))
        out.append((f"range/{mode}/matrix-outputs", H, "range_box", mode, 1, -1, 1, (0,), (1, 2)))
        for lab in LABELS:
            n = 1 if lab not in ("list", "indices") else 2
            out.append((f"adv/{mode}/{lab}", H, "adv_box", mode, n, -1, 1, lab))
            out.append((f"check-adv/{mode}/{lab}", H, "check_adv", mode, n, -1, lab))
        out.append((f"adv/{mode}/matrix-outputs", H, "adv_box", mode, 1, -1, 1, "onehot", (0,), 2, False, (3, 1)))
        out.append((f"check-adv/{mode}/matrix-outputs", H, "check_adv", mode, 1, -1, "onehot", 2, False, (3, 1)))
    for kind in ("dense", "bn", "outputs"):
        for m in ("forward-ibp", "forward-affine", "forward-hybrid", "crown", "crown-forward-hybrid")[: 5 if kind != "outputs" else 3]:
            out.append((f"predictions/{kind}/{m}", "props.p26", "predictions", kind, m))
    for fname in ("get_range_box", "get_upper_box", "get_lower_box"):
        out.append((f"range/keras/{fname}", H, "range_box", IBP, 1, -1, 1, (0,), None, fname, 2, True))
    for lab in ("onehot", "int-target"):
        out.append((f"adv/keras/{lab}", H, "adv_box", IBP, 1, -1, 1, lab, (0,), 2, True))
        out.append((f"check-adv/keras/{lab}", H, "check_adv", IBP, 1, -1, lab, 2, True))
    for mode in MODES:
        for dom in DOMS:
            for given in (0.25, -1, 0.0):
                out.append((f"noise/{mode}/{dom}/eps{given}", H, "noise", mode, 1, -1, dom, given))
                for lab in ("onehot", "int-target") if given == 0.25 else ("onehot",):
                    out.append((f"adv-noise/{mode}/{dom}/eps{given}/{lab}", H, "noise", mode, 1, -1, dom, given, "get_adv_noise", False, None, lab))
        out.append((f"noise/{mode}/matrix-outputs", H, "noise", mode, 1, -1, "ball2", 0.25, "get_range_noise", False, (2, 1)))
    for dom in DOMS:
        for given in (0.25, -1):
            for fname in ("get_range_noise", "get_upper_noise", "get_lower_noise"):
                out.append((f"noise/keras/{dom}/{fname}/eps{given}", H, "noise", HYBRID, 1, -1, dom, given, fname, True))
            out.append((f"adv-noise/keras/{dom}/eps{given}", H, "noise", IBP, 1, -1, dom, given, "get_adv_noise", True, None, "indices"))
    if more:
        for mode in MODES:
            for nin in (1, 3, 4):
                for lab in LABELS[:4]:
                    out.append((f"more/adv/{mode}/in{nin}/{lab}", H, "adv_box", mode, 1, -1, 1, lab, (0,), nin))
                    out.append((f"more/check-adv/{mode}/in{nin}/{lab}", H, "check_adv", mode, 1, -1, lab, nin))
            for dom in DOMS:
                for lab in LABELS:
                    n = 1 if lab not in ("list", "indices") else 2
                    out.append((f"more/adv-noise/{mode}/{dom}/{lab}", H, "noise", mode, n, -1, dom, 0.25, "get_adv_noise", False, None, lab))
    return out


def predictions(rec, kind, method):
    """what the queries read: the outputs of the model on the inputs given, in order, as arrays"""
    from props.models import Net, clone, nin_of

    sc = Scene(rec, nin_of(kind), 2)
    d = clone(sc, Net(sc, kind), method=method, perturbation_domain=sc.box())
    x = sc.x_box()
    x = ten.np_array(x) if isinstance(x, T) else x
    cons = "decomon.models.models:DecomonModel.predict_on_single_batch_np"
    want = sc.call(d, x)
    got = sc.call(sc.attr(d, "predict_on_single_batch_np"), x)
    if isinstance(want, (list, tuple)) != isinstance(got, (list, tuple)):
        rec.bad("predictions", cons, f"{kind} {method}: returns {type(got).__name__} when the model returns {type(want).__name__}")
        return
    want, got = (list(v) if isinstance(v, (list, tuple)) else [v] for v in (want, got))
    rec.check(len(want) == len(got), "predictions", cons, f"{kind} {method}: {len(got)} arrays for {len(want)} outputs")
    for i, (w, g) in enumerate(zip(want, got)):
        rec.check(isinstance(g, T) and g.np_, "predictions", cons, f"{kind} {method}: output {i} is not an array")
        same = ten.raw(w).shape == ten.raw(g).shape
        rec.check(same, "predictions", cons, f"{kind} {method}: output {i} has shape {ten.raw(g).shape}, {ten.raw(w).shape} predicted")
        if same:
            rec.zero(tens(ten.raw(w) - ten.raw(g)), "predictions", cons, f"{kind} {method} output {i}")
